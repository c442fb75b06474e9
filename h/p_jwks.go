package main

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// ---- P13: key rotation ----

type RotKey struct {
	Kid  int
	Key  int
	Kind string // "": proper; otherwise a broken variant
}
type RotPub struct {
	At    int // ms
	Keys  []RotKey
	Kind  string // ok, err, status, garbage, hang
	Arg   int
	Delay int
}
type RotUse struct {
	At  int
	Key int // which private key signs
	Kid int // -1 none
	Bad bool
}
type RotSec struct {
	Alg  string
	Pubs []RotPub
	Uses []RotUse
}
type RotCase struct{ Secs []RotSec }

var rotGarbage = []string{"", "{}", `{"keys":[]}`, `{"keys":null}`, "<html>busy</html>", "null", "[]", `{"keys":[{}]}`, `{"keys":[{"kty":"RSA"}]}`, `{"keys":"x"}`, `{"keys":[{"kty":"oct","k":"AAAA","alg":"HS256","kid":"kid-0"}]}`, `{"keys"`, "\x00\x01", `{"keys":[{"kty":"EC","crv":"P-999","x":"AA","y":"AA","alg":"ES256"}]}`}

func genRotKeys(t *rapid.T, allowBad bool) []RotKey {
	n := intR(t, "nk", 1, 4)
	var ks []RotKey
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := RotKey{Kid: intR(t, "kid", 0, 5), Key: intR(t, "key", 0, nKeys-1)}
		if chance(t, "nokid", 12) {
			k.Kid = -1 // published without a kid: kept next to the others
		} else if used[k.Kid] {
			continue
		}
		used[k.Kid] = true
		if allowBad && chance(t, "badkey", 12) {
			k.Kind = rapid.SampledFrom([]string{"otheralg", "wrongtype", "noalg", "badnum", "oct", "enc"}).Draw(t, "bk")
		}
		ks = append(ks, k)
	}
	return ks
}

func genRotSec(t *rapid.T) RotSec {
	s := RotSec{Alg: rapid.SampledFrom([]string{"ES256", "ES256", "ES384", "ES512", "RS256", "RS512", "PS256"}).Draw(t, "alg")}
	at := 0
	s.Pubs = append(s.Pubs, RotPub{Kind: "ok", Keys: genRotKeys(t, false)})
	n := intR(t, "npub", 0, 6)
	for i := 0; i < n; i++ {
		at += intR(t, "gap", 1, 250)*100 + 50
		p := RotPub{At: at, Kind: rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "err", "status", "garbage", "hang"}).Draw(t, "kind"), Keys: genRotKeys(t, true), Arg: intR(t, "arg", 0, 1000)}
		if p.Kind != "hang" && chance(t, "slow", 30) {
			p.Delay = intR(t, "delay", 1, 40)*100 + 30
		}
		s.Pubs = append(s.Pubs, p)
	}
	s.Uses = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) RotUse {
		u := RotUse{Key: intR(t, "ukey", 0, nKeys-1), Kid: rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 4, 5, 6, 7}).Draw(t, "ukid"), Bad: chance(t, "bad", 10)}
		u.At = intR(t, "uat", 0, (at/1000+30)*10) * 100
		if p := s.Pubs[intR(t, "upub", 0, len(s.Pubs)-1)]; len(p.Keys) > 0 && chance(t, "match", 65) {
			k := rapid.SampledFrom(p.Keys).Draw(t, "mk")
			u.Key, u.Kid = k.Key, k.Kid
			if chance(t, "soon", 60) {
				u.At = p.At + rapid.SampledFrom([]int{-150, 50, 150, 1150, 5050, 9950, 10150, 11050, 12150, 14550, 20050, 25050}).Draw(t, "after")
			}
		}
		u.At = max(u.At, 0)
		return u
	}), 1, 30).Draw(t, "uses")
	return s
}

func genRotCase(t *rapid.T) any {
	return &RotCase{Secs: rapid.SliceOfN(rapid.Custom(genRotSec), 1, 2).Draw(t, "secs")}
}

func (p RotPub) doc(alg string) string {
	if p.Kind == "garbage" {
		return rotGarbage[p.Arg%len(rotGarbage)]
	}
	var ks []map[string]any
	for _, k := range p.Keys {
		kid := kidName(k.Kid)
		if k.Kid < 0 {
			kid = ""
		}
		m := jwkOf(alg, k.Key, kid)
		switch k.Kind {
		case "otheralg":
			m["alg"] = map[string]string{"RS": "RS384", "PS": "RS256", "ES": "RS256"}[alg[:2]]
		case "wrongtype": // a key of another type that claims the configured alg
			if alg[0] == 'E' {
				m = jwkOf("RS256", k.Key, kid)
			} else {
				m = jwkOf("ES256", k.Key, kid)
			}
			m["alg"] = alg
		case "noalg":
			delete(m, "alg")
		case "badnum":
			if alg[0] == 'E' {
				m["x"] = "!!"
			} else {
				m["n"] = "!!"
			}
		case "oct":
			m = map[string]any{"kty": "oct", "k": "c2VjcmV0", "alg": alg, "kid": kid}
		case "enc":
			m["use"] = "enc"
			m["alg"] = "RSA-OAEP"
		}
		ks = append(ks, m)
	}
	return jwksDoc(ks...)
}

func (p RotPub) clean() bool {
	if p.Kind != "ok" {
		return false
	}
	for _, k := range p.Keys {
		if k.Kind != "" {
			return false
		}
	}
	return true
}

const hangBound = 30000 // ms a hanging fetch may at most keep a refresh busy

func runRotCase(env *Env, ci any) (o Outcome) {
	c := ci.(*RotCase)
	jwts := map[string]any{}
	routes := []any{}
	s := vSim{}
	for i, sec := range c.Secs {
		path := fmt.Sprintf("/keys%d", i)
		jwts[fmt.Sprintf("j%d", i)] = map[string]any{"alg": sec.Alg, "jwksUrl": "http://idp" + path}
		routes = append(routes, map[string]any{"path": fmt.Sprintf("/s%d", i), "resource": "r", "jwt": fmt.Sprintf("j%d", i)})
		for _, p := range sec.Pubs {
			e := vEvent{At: p.At, Path: path, Jwks: p.doc(sec.Alg), Delay: p.Delay}
			switch p.Kind {
			case "err":
				e.Err = true
			case "status":
				e.Status = []int{404, 500, 503, 403, 204}[p.Arg%5]
			case "hang":
				e.Delay = 10000000
			}
			s.Events = append(s.Events, e)
		}
		for k, u := range sec.Uses {
			hdr := map[string]any{"alg": sec.Alg}
			if u.Kid >= 0 {
				hdr["kid"] = kidName(u.Kid)
			}
			tok := mkToken(hdr, map[string]any{"sub": "x"}, sec.Alg, privKey(sec.Alg, u.Key))
			if u.Bad {
				p := strings.Split(tok, ".")
				p[1] = b64([]byte(`{"sub":"y"}`))
				tok = strings.Join(p, ".")
			}
			id := fmt.Sprintf("k%d.%d", i, k)
			e := Exch{Method: "GET", Target: fmt.Sprintf("/s%d/x", i), Hdrs: []HV{{"Authorization", "Bearer " + tok}}}
			s.X = append(s.X, vExch{ID: id, At: u.At, Raw: e.raw(id, "h"), Ups: []vUp{{Status: 200, Body: []byte("ok")}}})
		}
	}
	s.Cfg = mustJSON(map[string]any{
		"connection": map[string]any{"downstream": map[string]any{"port": 8080}},
		"jwt":        jwts, "routes": routes,
		"resources": map[string]any{"r": []any{map[string]any{"url": map[string]any{"scheme": "http", "host": "up", "port": 80}}}},
	})
	var res vSimRes
	if !env.ipRun(&o, "sim", s, &res) {
		return
	}
	if res.CfgErr != "" {
		o.failf("valid configuration refused: %s", res.CfgErr)
		return
	}
	x0 := 0
	for i, sec := range c.Secs {
		judgeRot(&o, sec, res.X[x0:x0+len(sec.Uses)], fetchesOf(res.Fetches, fmt.Sprintf("/keys%d", i)))
		x0 += len(sec.Uses)
	}
	return
}

func fetchesOf(fs []vFetch, path string) (out []int) {
	for _, f := range fs {
		if f.Path == path {
			out = append(out, int(f.At))
		}
	}
	sort.Ints(out)
	return
}

func judgeRot(o *Outcome, sec RotSec, got []vXRes, fetches []int) {
	pubAt := func(t int) (RotPub, bool) { // what the endpoint answers to a fetch started at t
		p, edge := sec.Pubs[0], false
		for _, q := range sec.Pubs {
			if q.At <= t {
				p = q
			}
			if q.At > 0 && q.At >= t-simTol && q.At <= t+simTol {
				edge = true
			}
		}
		return p, edge
	}
	desc := fmt.Sprintf("alg %s publications %+v fetches %v", sec.Alg, sec.Pubs, fetches)
	if len(fetches) == 0 {
		o.failf("%s: key set never fetched at startup", desc)
		return
	}
	for i := 2; i < len(fetches); i++ {
		if d := fetches[i] - fetches[i-1]; d < 10000-simTol {
			o.failf("%s: two refreshes %d ms apart", desc, d)
		}
	}
	// the keys held over time
	type change struct {
		at     int
		held   map[int]int  // kid -> key, certain
		maybe  map[int]bool // keys that may or may not be in
		nokid  map[int]bool // keys published without a kid, certain
		latest map[int]bool // keys of the latest clean publication fetched
		unsure bool
	}
	cur := change{held: map[int]int{}, maybe: map[int]bool{}}
	var hist []change
	busyUntil, busyMax := -1, -1
	type span struct{ from, to, latest int }
	var busy []span
	for i, f := range fetches {
		p, edge := pubAt(f)
		n := change{at: f + p.Delay, held: map[int]int{}, maybe: map[int]bool{}, latest: cur.latest}
		for k, v := range cur.held {
			n.held[k] = v
		}
		for k := range cur.maybe {
			n.maybe[k] = true
		}
		n.nokid = map[int]bool{}
		for k := range cur.nokid {
			n.nokid[k] = true
		}
		switch {
		case edge || p.Kind == "hang":
			n.at = f
			for _, q := range sec.Pubs {
				for _, k := range q.Keys {
					n.maybe[k.Key] = true
					if edge {
						if v, ok := n.held[k.Kid]; ok && v != k.Key {
							n.maybe[v] = true
							delete(n.held, k.Kid)
						}
					}
				}
			}
			if p.Kind == "hang" && !edge {
				n.maybe = map[int]bool{}
				for k := range cur.maybe {
					n.maybe[k] = true
				}
			}
		case p.clean():
			n.latest = map[int]bool{}
			for _, k := range p.Keys {
				if k.Kid < 0 {
					n.nokid[k.Key] = true
				} else {
					n.held[k.Kid] = k.Key
				}
				n.latest[k.Key] = true
			}
		case p.Kind == "ok": // partly unusable: its good keys may or may not have been taken
			for _, k := range p.Keys {
				n.maybe[k.Key] = true
				if v, ok := n.held[k.Kid]; ok && v != k.Key && k.Kind == "" {
					n.maybe[v] = true
					delete(n.held, k.Kid)
				}
			}
		}
		hist = append(hist, n)
		cur = n
		if i > 0 {
			d := p.Delay
			latest := f + d + 10000
			if p.Kind == "hang" {
				latest = f + hangBound + 10000
			}
			busyUntil, busyMax = f+10000, latest
			busy = append(busy, span{f, busyUntil, busyMax})
		} else {
			busy = append(busy, span{f, f, f + p.Delay})
		}
	}
	at := func(t int) (change, bool) {
		st, ok := change{held: map[int]int{}}, true
		for _, h := range hist {
			if h.at <= t {
				st = h
			}
			if h.at >= t-simTol && h.at <= t+simTol && h.at > 0 {
				ok = false
			}
		}
		return st, ok
	}
	for i, u := range sec.Uses {
		g := got[i]
		st, sure := at(u.At)
		want, why := 0, "unknown-key"
		inHeld := st.nokid[u.Key]
		for _, k := range st.held {
			inHeld = inHeld || k == u.Key
		}
		_, kidKnown := st.held[u.Kid]
		switch {
		case u.Bad:
			why = "tampered"
		case !sure:
			want, why = -1, "during-change"
		case inHeld && (st.latest == nil || st.latest[u.Key]):
			want, why = 1, "held"
		case inHeld || st.maybe[u.Key]:
			want, why = -1, "withdrawn-or-unclear"
		default:
			for _, q := range sec.Pubs {
				for _, k := range q.Keys {
					if k.Key == u.Key && q.At <= u.At {
						why = "not-yet-fetched-or-replaced"
					}
				}
			}
		}
		where := fmt.Sprintf("at %d ms token by key %d kid %d bad=%v; %s", u.At, u.Key, u.Kid, u.Bad, desc)
		o.item(where, why != "tampered" && len(fetches) > 1, why, fmt.Sprintf("want-%d", want), fmt.Sprintf("fetches-%d", len(fetches)))
		jwtJudge(o, where, g, want)
		if d := g.End - g.Start; d > simTol {
			o.failf("%s: request waited %d ms", where, d)
		}
		// an unknown kid starts a refresh unless one is running or started in the last 10 s
		if u.Kid >= 0 && !kidKnown && sure && want != -1 {
			free := true
			maybeKid := false
			for _, q := range sec.Pubs {
				for _, k := range q.Keys {
					if k.Kid == u.Kid && st.maybe[k.Key] {
						maybeKid = true
					}
				}
			}
			for _, b := range busy {
				if b.from < u.At-simTol && b.latest >= u.At-2*simTol {
					free = false
				}
			}
			started := false
			for _, f := range fetches {
				started = started || f >= u.At-simTol && f <= u.At+simTol
			}
			if free && !maybeKid && !started {
				o.failf("%s: a token with an unknown kid started no refresh although none ran within 10 s", where)
			}
		}
	}
}

func init() {
	register(&Prop{ID: "P13", Gen: genRotCase, New: func() any { return &RotCase{} }, Run: runRotCase, NeedIP: true, Race: true, Quick: 500, Shards: 6,
		Rule:   "A case is 1-2 jwt sections with a JWKS endpoint whose content changes over simulated time (new keys, keys reissued under the same kid, without a kid, withdrawn, broken or mixed-type keys, garbage, errors, slow or hanging answers) and up to 30 signed tokens per section aimed at the changes; accept/reject is compared with a model of the keys held after each observed fetch, plus refresh-on-unknown-kid, at most one refresh per 10 s, and no request waiting for a refresh. Non-trivial: judged in a run in which at least one refresh happened.",
		Assume: []string{"keys of publications that contain unusable keys, and keys withdrawn from the endpoint, are not judged", "key ids are distinct where present"}})
}
