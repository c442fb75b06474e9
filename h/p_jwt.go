package main

import (
	"crypto/x509"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// ---- P11: only tokens signed by the configured key get through ----

type JwtCfg struct {
	Alg   string
	Keys  []int
	Src   string // key, cert, rsapub, jwks; secret for HS; none
	NoKid int    `json:",omitempty"` // jwks: this many of the keys, from the first, are published without kid
}
type TokSpec struct {
	Sign   string // algorithm actually used for the signature
	Key    int
	Conf   string // non-empty: HMAC keyed with this encoding of the configured public key (pem, der)
	HdrAlg string
	Kid    int // -1 none, -2 unknown, otherwise kid of key i
	Extra  string
	Exp    int // seconds from now, 0: absent
	Nbf    int
	Iat    int
	Mut    string
	Pos    int
	Wrap   string // "": Bearer <token>
}
type JwtReq struct {
	Cfg    int
	Other  int // >=0: use a token fit for this configuration instead
	Same   int // >0: the very token (same bytes) of request Same-1
	Method string
	Tail   string
	Abs    string
	About  bool // to the about resource
	Tok    TokSpec
}
type JwtCase struct {
	Cfgs []JwtCfg
	Reqs []JwtReq
	Par  int
	KA   bool
}

var tokMuts = []string{"sigflip", "sigflip", "sigtrunc", "sigempty", "sigother", "payload", "payload", "payloadflip", "hdr", "cut1", "cut2", "4seg", "zerosig", "swap", "json-tampered", "json-unsigned", "json-emptysigs", "garbage", "hdralg-none-stripped"}

func genJwtCfg(t *rapid.T) JwtCfg {
	c := JwtCfg{Alg: rapid.SampledFrom(append([]string{"none"}, jwtAlgs...)).Draw(t, "alg")}
	n := 1
	switch c.Alg[:2] {
	case "no":
		c.Src = "none"
		return c
	case "HS":
		c.Src = "secret"
	case "RS", "PS":
		c.Src = rapid.SampledFrom([]string{"key", "cert", "rsapub", "jwks", "jwks"}).Draw(t, "src")
	default:
		c.Src = rapid.SampledFrom([]string{"key", "cert", "jwks", "jwks"}).Draw(t, "src")
	}
	if c.Src == "jwks" {
		n = intR(t, "nkeys", 1, 3)
		if chance(t, "nokid", 25) {
			c.NoKid = intR(t, "nokidn", 1, n)
		}
	}
	first := intR(t, "key0", 0, nKeys-1)
	for i := 0; i < n; i++ {
		c.Keys = append(c.Keys, (first+i)%nKeys)
	}
	return c
}

func genTok(t *rapid.T, c JwtCfg) TokSpec {
	k := TokSpec{Sign: c.Alg, Kid: -1}
	if len(c.Keys) > 0 {
		k.Key = rapid.SampledFrom(c.Keys).Draw(t, "k")
	}
	switch rapid.IntRange(0, 3).Draw(t, "kid") {
	case 0, 1:
		k.Kid = k.Key
	case 2:
		k.Kid = rapid.SampledFrom([]int{-2, 0, 1, 2, 3}).Draw(t, "kidv")
	}
	k.Exp = rapid.SampledFrom([]int{0, 600, 600, 100000, 1 << 30}).Draw(t, "exp")
	k.Nbf = rapid.SampledFrom([]int{0, 0, -600, -100000, 30}).Draw(t, "nbf")
	k.Iat = rapid.SampledFrom([]int{0, 0, -600, -100000, 30}).Draw(t, "iat")
	k.Extra = rapid.SampledFrom([]string{"", "", "typ", "cty", "big"}).Draw(t, "extra")
	switch rapid.IntRange(0, 9).Draw(t, "attack") {
	case 0, 1, 2: // honest
	case 3: // another key of the same kind
		k.Key = intR(t, "wk", 0, nKeys-1)
	case 4: // another algorithm
		k.Sign = rapid.SampledFrom(jwtAlgs).Draw(t, "walg")
		k.Key = intR(t, "wk2", 0, nKeys-1)
		if k.Sign == c.Alg {
			break
		}
		k.HdrAlg = rapid.SampledFrom([]string{"", c.Alg}).Draw(t, "halg")
	case 5: // key confusion, attacker-supplied keys
		switch rapid.IntRange(0, 3).Draw(t, "conf") {
		case 0, 1:
			k.Sign, k.Conf = rapid.SampledFrom([]string{"HS256", "HS384", "HS512"}).Draw(t, "calg"), rapid.SampledFrom([]string{"pem", "pemtrim", "der", "empty"}).Draw(t, "cenc")
			k.HdrAlg = rapid.SampledFrom([]string{"", "", c.Alg}).Draw(t, "halg2")
		default:
			k.Key = intR(t, "wk3", 0, nKeys-1)
			k.Extra = rapid.SampledFrom([]string{"jwk", "jku", "x5u", "crit"}).Draw(t, "inj")
		}
	case 6: // none
		k.Sign, k.HdrAlg = "none", rapid.SampledFrom([]string{"none", "None", "NONE", "nOnE", "", c.Alg}).Draw(t, "nonealg")
	case 7, 8:
		k.Mut, k.Pos = rapid.SampledFrom(tokMuts).Draw(t, "mut"), intR(t, "pos", 0, 999)
	case 9:
		switch rapid.IntRange(0, 2).Draw(t, "other") {
		case 0:
			k.Wrap = rapid.SampledFrom([]string{"absent", "empty", "bearer-only", "bearer-space", "bare", "cookie", "query"}).Draw(t, "wrap")
		case 1:
			k.Exp = -rapid.SampledFrom([]int{200, 3600, 1000000}).Draw(t, "expired")
		default:
			k.Nbf = rapid.SampledFrom([]int{300, 3600, 1000000}).Draw(t, "future")
		}
	}
	return k
}

func genJwtCase(t *rapid.T) any {
	c := &JwtCase{Cfgs: rapid.SliceOfN(rapid.Custom(genJwtCfg), 1, 6).Draw(t, "cfgs")}
	lo, hi := many(t, 1, 60)
	c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) JwtReq {
		r := JwtReq{Cfg: intR(t, "cfg", 0, len(c.Cfgs)-1), Other: -1}
		src := r.Cfg
		if chance(t, "cross", 15) {
			r.Other = intR(t, "other", 0, len(c.Cfgs)-1)
			src = r.Other
		}
		r.Tok = genTok(t, c.Cfgs[src])
		r.Method = rapid.SampledFrom([]string{"GET", "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE"}).Draw(t, "m")
		r.Tail = rapid.SampledFrom([]string{"", "", "/x", "?a=b", "/..x", "%2e", "/about", "//"[:1]}).Draw(t, "tail")
		r.Abs = genAbs(t)
		r.About = chance(t, "about", 8)
		if chance(t, "same", 25) {
			r.Same = intR(t, "samei", 1, 60)
		}
		return r
	}), lo, hi).Draw(t, "reqs")
	for i := range c.Reqs {
		r := &c.Reqs[i]
		if r.Same > i {
			r.Same = i
		}
		if r.Same > 0 {
			f := c.Reqs[r.Same-1]
			r.Tok, r.Other = f.Tok, f.Cfg
			if f.Other >= 0 {
				r.Other = f.Other
			}
		}
	}
	c.Par = rapid.SampledFrom([]int{1, 1, 8, 16}).Draw(t, "par")
	c.KA = rapid.Bool().Draw(t, "ka")
	return c
}

func kidName(i int) string {
	if i == -2 {
		return "no-such-kid"
	}
	return fmt.Sprintf("kid-%d", i)
}

// build renders the token; now is the clock the claims are relative to.
func (k TokSpec) build(c JwtCfg, now int64) string {
	hdr := map[string]any{"alg": k.Sign}
	if k.HdrAlg != "" {
		hdr["alg"] = k.HdrAlg
	}
	if k.Kid != -1 {
		hdr["kid"] = kidName(k.Kid)
	}
	switch k.Extra {
	case "typ":
		hdr["typ"] = "JWT"
	case "cty":
		hdr["cty"] = "JWT"
	case "jku":
		hdr["jku"] = "http://127.0.0.1:1/jwks"
	case "x5u":
		hdr["x5u"] = "http://127.0.0.1:1/x"
	case "crit":
		hdr["b64"] = true
	case "jwk":
		if k.Sign[:2] == "RS" || k.Sign[:2] == "PS" || k.Sign[:2] == "ES" {
			hdr["jwk"] = jwkOf(k.Sign, k.Key, "x")
		}
	}
	claims := map[string]any{"sub": "someone"}
	if k.Exp != 0 {
		claims["exp"] = now + int64(k.Exp)
	}
	if k.Nbf != 0 {
		claims["nbf"] = now + int64(k.Nbf)
	}
	if k.Iat != 0 {
		claims["iat"] = now + int64(k.Iat)
	}
	if k.Extra == "big" {
		claims["data"] = strings.Repeat("x", 2000)
	}
	var key any
	if k.Sign != "none" {
		key = privKey(k.Sign, k.Key)
	}
	if k.Conf != "" {
		key = []byte("")
		if len(c.Keys) > 0 && c.Src != "secret" {
			p := pubPEM(c.Alg, c.Keys[0], "key")
			switch k.Conf {
			case "pem":
				key = []byte(p)
			case "pemtrim":
				key = []byte(strings.TrimSpace(p))
			case "der":
				b, _ := x509.MarshalPKIXPublicKey(pubKey(c.Alg, c.Keys[0]))
				key = b
			}
		}
	}
	tok := mkToken(hdr, claims, k.Sign, key)
	if k.Mut == "" {
		return tok
	}
	p := strings.Split(tok, ".")
	dec := func(s string) []byte {
		b, err := base64RawURL(s)
		must(err)
		return b
	}
	flip := func(b []byte) []byte {
		if len(b) == 0 {
			return []byte{1}
		}
		i := k.Pos * len(b) / 1000
		b[i] ^= 1 << (k.Pos % 8)
		return b
	}
	switch k.Mut {
	case "sigflip":
		p[2] = b64(flip(dec(p[2])))
	case "sigtrunc":
		s := dec(p[2])
		if len(s) > 0 {
			s = s[:k.Pos*len(s)/1000]
		} else {
			s = []byte{0}
		}
		p[2] = b64(s)
	case "sigempty":
		p[2] = ""
	case "sigother":
		claims["sub"] = "somebody-else"
		p[2] = strings.Split(mkToken(hdr, claims, k.Sign, key), ".")[2]
	case "payload":
		claims["sub"] = "admin"
		claims["exp"] = now + 99999
		b, _ := json.Marshal(claims)
		p[1] = b64(b)
	case "payloadflip": // flip inside the value of sub, keeping it JSON
		b := dec(p[1])
		i := strings.Index(string(b), "someone")
		b[i+k.Pos%7] ^= 2
		p[1] = b64(b)
	case "hdr":
		hdr["x"] = k.Pos
		b, _ := json.Marshal(hdr)
		p[0] = b64(b)
	case "hdralg-none-stripped":
		hdr["alg"] = "none"
		b, _ := json.Marshal(hdr)
		p[0], p[2] = b64(b), ""
	case "cut1":
		p = p[:2]
	case "cut2":
		p = p[:1]
	case "4seg":
		p = append(p, p[2])
	case "zerosig":
		p[2] = b64(make([]byte, len(dec(p[2]))))
	case "swap":
		p[1], p[2] = p[2], p[1]
	case "json-tampered":
		claims["sub"] = "admin"
		b, _ := json.Marshal(claims)
		j, _ := json.Marshal(map[string]any{"payload": b64(b), "signatures": []any{map[string]any{"protected": p[0], "signature": p[2]}}})
		return string(j)
	case "json-unsigned":
		b, _ := json.Marshal(claims)
		return string(b)
	case "json-emptysigs":
		j, _ := json.Marshal(map[string]any{"payload": p[1], "signatures": []any{}})
		return string(j)
	case "garbage":
		return []string{"x", "a.b.c", "..", "...", "{", "{}", "[]", "null", "e30.e30.", "e30.e30.e30", "\"\"", "eyJhbGciOm51bGx9.e30.", "0"}[k.Pos%13]
	}
	return strings.Join(p, ".")
}

// verdict: 1 must be let through, 0 must be rejected, -1 not judged.
func (k TokSpec) verdict(c JwtCfg) int {
	if k.Wrap != "" {
		return 0
	}
	dates := k.Exp >= 0 && k.Nbf < 120 && k.Iat < 120
	if c.Alg == "none" {
		if k.Mut == "garbage" || k.Mut == "cut2" || k.Mut == "cut1" {
			return -1
		}
		if k.Mut == "" && !dates {
			return 0
		}
		if k.Mut == "" && k.Sign == "none" && k.HdrAlg != "" && strings.EqualFold(k.HdrAlg, "none") {
			if k.HdrAlg == "none" {
				return 1
			}
		}
		return -1
	}
	if !dates {
		return 0
	}
	if k.Mut == "sigother" && k.Sign == "none" {
		return 0
	}
	ok := k.Sign == c.Alg && k.Mut == "" && (k.Conf == "" || c.Src == "secret" && false)
	if ok {
		in := false
		for _, x := range c.Keys {
			in = in || x == k.Key
		}
		ok = in
	}
	if ok && (k.HdrAlg != "" && k.HdrAlg != c.Alg) {
		return -1
	}
	if ok && k.Extra == "crit" {
		return -1
	}
	if ok {
		return 1
	}
	return 0
}

// jwksServer serves key sets by path.
type jwksServer struct {
	ln   net.Listener
	mu   sync.Mutex
	docs map[string]string
}

func newJwksServer() (*jwksServer, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &jwksServer{ln: ln, docs: map[string]string{}}
	go http.Serve(ln, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		d, ok := s.docs[r.URL.Path]
		s.mu.Unlock()
		if !ok {
			w.WriteHeader(404)
			return
		}
		w.Header().Set("Content-Type", "application/json")
		w.Write([]byte(d))
	}))
	return s, nil
}

func (s *jwksServer) set(path, doc string) { s.mu.Lock(); s.docs[path] = doc; s.mu.Unlock() }
func (s *jwksServer) url(path string) string {
	return "http://" + s.ln.Addr().String() + path
}

func (c JwtCfg) section(i int, js *jwksServer) map[string]any {
	m := map[string]any{"alg": c.Alg}
	switch c.Src {
	case "none":
	case "secret":
		m["key"] = hsSecret(c.Keys[0])
	case "jwks":
		var ks []map[string]any
		for n, k := range c.Keys {
			kid := kidName(k)
			if n < c.NoKid {
				kid = ""
			}
			ks = append(ks, jwkOf(c.Alg, k, kid))
		}
		path := fmt.Sprintf("/jwks/%d", i)
		js.set(path, jwksDoc(ks...))
		m["jwksUrl"] = js.url(path)
	default:
		m["key"] = pubPEM(c.Alg, c.Keys[0], c.Src)
	}
	return m
}

func runJwtCase(env *Env, ci any) (o Outcome) {
	c := ci.(*JwtCase)
	js, err := newJwksServer()
	if err != nil {
		o.Infra = err.Error()
		return
	}
	defer js.ln.Close()
	cfg := Cfg{Jwt: map[string]any{}, Resources: map[string][]CfgRes{"r": {{Up: 0}}}, Routes: []CfgRoute{{Path: "/", Resource: "r"}, {Path: "/j", Resource: "r"}, {Path: "/j0/open", Resource: "r"}}}
	for i, jc := range c.Cfgs {
		cfg.Jwt[fmt.Sprintf("jwt%d", i)] = jc.section(i, js)
		cfg.Routes = append(cfg.Routes, CfgRoute{Path: fmt.Sprintf("/j%d", i), Resource: "r", Jwt: fmt.Sprintf("jwt%d", i)}, CfgRoute{Path: fmt.Sprintf("/a%d", i), Resource: "about", Jwt: fmt.Sprintf("jwt%d", i)})
	}
	j := startOrFail(env, cfg, startOpt{}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	now := time.Now().Unix()
	var xs []Exch
	var toks []string
	for i, r := range c.Reqs {
		src := c.Cfgs[r.Cfg]
		if r.Other >= 0 {
			src = c.Cfgs[r.Other]
		}
		tok := ""
		if r.Same > 0 && r.Same-1 < i {
			tok = toks[r.Same-1]
		} else {
			tok = r.Tok.build(src, now)
		}
		toks = append(toks, tok)
		e := Exch{Method: r.Method, Abs: r.Abs, Target: fmt.Sprintf("/j%d%s", r.Cfg, r.Tail), Ups: []UpResp{{Status: 200, Body: BodySpec{"text", 9, uint32(i)}}}}
		if r.Method == "POST" || r.Method == "PUT" {
			e.Framing = "cl"
		}
		if r.About {
			e.Target = "/a" + e.Target[2:]
		}
		switch r.Tok.Wrap {
		case "":
			e.Hdrs = []HV{{"Authorization", "Bearer " + tok}}
		case "empty":
			e.Hdrs = []HV{{"Authorization", ""}}
		case "bearer-only":
			e.Hdrs = []HV{{"Authorization", "Bearer"}}
		case "bearer-space":
			e.Hdrs = []HV{{"Authorization", "Bearer "}}
		case "bare":
			e.Hdrs = []HV{{"Authorization", tok}}
		case "cookie":
			e.Hdrs = []HV{{"Cookie", "jwt=" + tok + "; Authorization=" + tok}}
		case "query":
			if !strings.Contains(e.Target, "?") {
				e.Target += "?jwt=" + tok + "&access_token=" + tok
			}
		}
		xs = append(xs, e)
	}
	for i, x := range env.runBatch(j, xs, c.Par, c.KA) {
		r := c.Reqs[i]
		jc := c.Cfgs[r.Cfg]
		want := r.Tok.verdict(jc)
		if r.Other >= 0 && c.Cfgs[r.Other].Src != "none" && r.Tok.Conf != "" {
			// confusion keyed with the other configuration's key: never this one's, except an equal HMAC secret
			if jc.Src == "none" {
				want = -1
			}
		}
		where := fmt.Sprintf("jwt %+v, token %+v (from %d) %s %s %v", jc, r.Tok, r.Other, x.E.Method, x.E.Target, x.E.Hdrs)
		kind := "honest"
		switch {
		case r.Tok.Mut != "":
			kind = "mut-" + r.Tok.Mut
		case r.Tok.Wrap != "":
			kind = "wrap-" + r.Tok.Wrap
		case r.Tok.Conf != "":
			kind = "confusion"
		case r.Tok.Sign == "none":
			kind = "unsigned"
		case r.Same > 0:
			kind = "same-token-again"
		case r.Other >= 0 && r.Other != r.Cfg:
			kind = "cross"
		}
		o.item(fmt.Sprint(jc, r), want >= 0 && jc.Alg != "none", fmt.Sprintf("want-%d", want), kind, "alg-"+jc.Alg, "src-"+jc.Src)
		if noResp(&o, x) {
			continue
		}
		switch want {
		case 0:
			if len(x.Ups) > 0 {
				o.failf("%s: reached upstream", where)
			}
			errShape(&o, where, x.E, x.Resp, 401, false)
		case 1:
			if r.About {
				if x.Resp.Status != 200 || len(x.Ups) > 0 {
					o.failf("%s: valid token refused by the about resource: %s", where, x.Resp.brief())
				}
			} else if x.Resp.Status != 200 || len(x.Ups) != 1 {
				o.failf("%s: valid token refused: %s", where, x.Resp.brief())
			} else if a := x.Ups[0].Hdr["Authorization"]; len(a) != 1 || a[0] != x.E.Hdrs[0][1] {
				o.failf("%s: upstream saw Authorization %q", where, a)
			}
		}
	}
	// an unprotected route next to the protected ones stays open
	for _, x := range env.runBatch(j, []Exch{{Method: "GET", Target: "/open", Ups: []UpResp{{Status: 200}}}, {Method: "GET", Target: "/jx", Ups: []UpResp{{Status: 200}}}, {Method: "GET", Target: "/j0/open", Ups: []UpResp{{Status: 200}}}}, 1, true) {
		if !noResp(&o, x) && (x.Resp.Status != 200 || len(x.Ups) != 1) {
			o.failf("%s needs no token but got %s", x.E.Target, x.Resp.brief())
		}
	}
	finish(env, j, &o)
	return
}

func init() {
	register(&Prop{ID: "P11", Gen: genJwtCase, New: func() any { return &JwtCase{} }, Run: runJwtCase, NeedBB: true, Quick: 350, Shards: 6,
		Rule:   "A case is a booted proxy with 1-6 jwt sections (all 12 algorithms and none; PEM public key, certificate, HMAC secret or JWKS with 1-3 keys, some without a kid, served on loopback) plus 1-60 requests carrying tokens signed by the harness with the standard library: honest, wrong key, wrong algorithm, key confusion, alg none, attacker jwk/jku headers, 18 kinds of tampering, wrong carrier, expired/not yet valid, another route's token, about resources behind a jwt, the very bytes of an earlier request's token on another route. One evaluation checks accept (forwarded once) or reject (401, zero upstream calls). Non-trivial: judged requests on a route whose alg is not none.",
		Assume: []string{"tokens whose header names another algorithm than the one validly used, and alg none with signed tokens, are not judged"}})
}
