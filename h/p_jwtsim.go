package main

import (
	"encoding/json"
	"fmt"

	"pgregory.net/rapid"
)

const simEpoch = 946684800 // synctest's clock starts at 2000-01-01 UTC

// ---- P12: date claims and skew ----

type DateTok struct {
	Exp, Nbf, Iat *int64 // seconds relative to the start of the run
	Float         bool   // write the claims as JSON floats
	Key           int
}
type DateUse struct {
	At  int // ms
	Tok int
}
type DateCase struct {
	Alg  string
	Skew string // "" absent, otherwise JSON literal
	Toks []DateTok
	Uses []DateUse
}

func (c *DateCase) skew() int64 {
	if c.Skew == "" {
		return 120
	}
	var s string
	if json.Unmarshal([]byte(c.Skew), &s) != nil {
		s = c.Skew
	}
	if s == "" {
		return 120
	}
	var n int64
	fmt.Sscan(s, &n)
	return n
}

func genDateCase(t *rapid.T) any {
	c := &DateCase{Alg: rapid.SampledFrom([]string{"HS256", "HS256", "HS512", "ES256", "RS256", "PS384", "none"}).Draw(t, "alg")}
	c.Skew = rapid.SampledFrom([]string{"", "", `"0"`, "0", `"1"`, "1", "5", `"30"`, "60", `"120"`, "119", "600", `"3600"`, "86400", "1000000", `"3000000"`, `""`}).Draw(t, "skew")
	skew := c.skew()
	c.Uses = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) DateUse {
		at := intR(t, "at", 0, 400)
		if chance(t, "far", 10) {
			at = intR(t, "atfar", 0, 200000)
		}
		return DateUse{At: at*1000 + rapid.SampledFrom([]int{0, 1, 500, 999}).Draw(t, "ms")}
	}), 1, 25).Draw(t, "uses")
	off := func(label string) *int64 {
		if chance(t, label+"?", 35) {
			return nil
		}
		u := int64(c.Uses[intR(t, label+"u", 0, len(c.Uses)-1)].At / 1000)
		var v int64
		// aim at the edges of what skew tolerates around the instant the token is used
		switch rapid.IntRange(0, 4).Draw(t, label+"k") {
		case 0:
			v = u - skew
		case 1:
			v = u + skew
		case 2:
			v = u
		case 3:
			v = u + int64(intR(t, label+"r", -500, 500))
		default:
			v = u + rapid.SampledFrom([]int64{-skew * 2, skew * 2, -100000, 100000, 1000000000}).Draw(t, label+"far")
		}
		v += rapid.SampledFrom([]int64{0, 0, 1, -1, 2, -2, 10, -10}).Draw(t, label+"d")
		if v < -simEpoch+100000 {
			v = -simEpoch + 100000
		}
		return &v
	}
	c.Toks = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) DateTok {
		return DateTok{Exp: off("exp"), Nbf: off("nbf"), Iat: off("iat"), Float: chance(t, "float", 10)}
	}), 1, 6).Draw(t, "toks")
	for i := range c.Uses {
		c.Uses[i].Tok = intR(t, "tok", 0, len(c.Toks)-1)
	}
	return c
}

func (d DateTok) render(alg string) string {
	claims := map[string]any{"sub": "s"}
	put := func(n string, v *int64) {
		if v != nil {
			claims[n] = simEpoch + *v
			if d.Float {
				claims[n] = json.RawMessage(fmt.Sprintf("%d.0", simEpoch+*v))
			}
		}
	}
	put("exp", d.Exp)
	put("nbf", d.Nbf)
	put("iat", d.Iat)
	var key any
	if alg != "none" {
		key = privKey(alg, d.Key)
	}
	return mkToken(map[string]any{"alg": alg}, claims, alg, key)
}

// verdict: 1 valid, 0 invalid, -1 exactly on a boundary the RFC leaves to taste.
func (d DateTok) verdict(now, skew int64) (int, string) {
	v, why := 1, "valid"
	if d.Exp != nil && now >= *d.Exp+skew {
		v, why = 0, "expired"
	}
	if d.Nbf != nil && now < *d.Nbf-skew {
		v, why = 0, "not-yet"
	}
	if d.Iat != nil && now < *d.Iat-skew {
		v, why = 0, "issued-in-future"
	}
	if v == 1 && d.Nbf != nil && now == *d.Nbf-skew {
		return -1, "boundary"
	}
	return v, why
}

func jwtSimCfg(section map[string]any) string {
	cfg := map[string]any{
		"connection": map[string]any{"downstream": map[string]any{"port": 8080}},
		"jwt":        map[string]any{"j": section},
		"routes":     []any{map[string]any{"path": "/s", "resource": "r", "jwt": "j"}},
		"resources":  map[string]any{"r": []any{map[string]any{"url": map[string]any{"scheme": "http", "host": "up", "port": 80}}}},
	}
	b, err := json.Marshal(cfg)
	must(err)
	return string(b)
}

func jwtExch(id string, at int, tok string) vExch {
	e := Exch{Method: "GET", Target: "/s/" + id, Hdrs: []HV{{"Authorization", "Bearer " + tok}}}
	return vExch{ID: id, At: at, Raw: e.raw(id, "h"), Ups: []vUp{{Status: 200, Body: []byte("ok")}}}
}

// jwtJudge compares one simulated exchange with the verdict.
func jwtJudge(o *Outcome, where string, got vXRes, want int) {
	if got.Panic != "" {
		o.failf("%s: handler panicked: %s", where, trunc(got.Panic, 1500))
		return
	}
	switch want {
	case 1:
		if got.Status != 200 || len(got.Ups) != 1 {
			o.failf("%s: token refused with status %d (%d upstream calls)", where, got.Status, len(got.Ups))
		}
	case 0:
		if len(got.Ups) > 0 {
			o.failf("%s: token reached upstream", where)
		}
		errShape(o, where, Exch{Method: "GET"}, DownResp{Status: got.Status, Hdr: got.Hdr, Body: got.Body}, 401, false)
	}
}

func runDateCase(env *Env, ci any) (o Outcome) {
	c := ci.(*DateCase)
	sec := map[string]any{"alg": c.Alg}
	switch c.Alg[:2] {
	case "no":
	case "HS":
		sec["key"] = hsSecret(0)
	default:
		sec["key"] = pubPEM(c.Alg, 0, "key")
	}
	if c.Skew != "" {
		sec["acceptableSkewSeconds"] = json.RawMessage(c.Skew)
	}
	s := vSim{Cfg: jwtSimCfg(sec)}
	toks := make([]string, len(c.Toks))
	for i, d := range c.Toks {
		toks[i] = d.render(c.Alg)
	}
	for i, u := range c.Uses {
		s.X = append(s.X, jwtExch(fmt.Sprintf("d%d", i), u.At, toks[u.Tok]))
	}
	var res vSimRes
	if !env.ipRun(&o, "sim", s, &res) {
		return
	}
	if res.CfgErr != "" {
		o.failf("valid configuration (acceptableSkewSeconds %s) refused: %s", c.Skew, res.CfgErr)
		return
	}
	skew := c.skew()
	for i, u := range c.Uses {
		d := c.Toks[u.Tok]
		now := int64(u.At / 1000)
		want, why := d.verdict(now, skew)
		ps := func(p *int64) string {
			if p == nil {
				return "-"
			}
			return fmt.Sprint(*p - now)
		}
		where := fmt.Sprintf("alg %s acceptableSkewSeconds %q (%d), token exp %s nbf %s iat %s seconds from now", c.Alg, c.Skew, skew, ps(d.Exp), ps(d.Nbf), ps(d.Iat))
		strict, _ := d.verdict(now, 0)
		lab := "same-without-skew"
		if strict != want {
			lab = "skew-decides"
		}
		o.item(where, d.Exp != nil || d.Nbf != nil || d.Iat != nil, why, lab)
		jwtJudge(&o, where, res.X[i], want)
	}
	return
}

func init() {
	register(&Prop{ID: "P12", Gen: genDateCase, New: func() any { return &DateCase{} }, Run: runDateCase, NeedIP: true, Quick: 2500, Shards: 6,
		Rule:   "A case is one jwt section (7 algorithms, acceptableSkewSeconds absent, number or string, 0..3e6), 1-6 signed tokens with exp/nbf/iat aimed at the edges of skew, used up to 25 times at generated instants of a simulated clock; one evaluation compares accept/reject with the RFC 7519 rule extended by skew. Non-trivial: the token carries a date claim.",
		Assume: []string{"nbf equal to the current second (less skew) is not judged"}})
}
