package main

import (
	"crypto/tls"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"regexp"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ---- P32: what is secret stays out of the log and out of answers ----

type SecretCase struct {
	Bad   *BadCase `json:",omitempty"` // a broken configuration instead
	Level string
	Color string
	TLS   bool
	Env   bool // configuration comes from the environment
	Max   int
	Cfgs  []JwtCfg
	Reqs  []SecretReq
	Par   int
}
type SecretReq struct {
	E    Exch
	To   string
	Seed uint32
	Tok  *JwtReq `json:",omitempty"`
}

// secretMark is a text that does not occur by accident.
func secretMark(seed uint32, kind string) string {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %s", seed, kind)
	return "sek" + hex.EncodeToString(h.Sum(nil))
}

func genSecretCase(t *rapid.T) any {
	c := &SecretCase{}
	if chance(t, "badcfg", 20) {
		c.Bad = genBadCase(t).(*BadCase)
		return c
	}
	c.Level = rapid.SampledFrom([]string{"TRACE", "TRACE", "DEBUG", "INFO", "WARN"}).Draw(t, "level")
	c.Color = rapid.SampledFrom([]string{"", "", "", "true"}).Draw(t, "color")
	c.TLS = chance(t, "tls", 25)
	c.Env = chance(t, "env", 40)
	c.Max = intR(t, "max", 1, 3)
	c.Cfgs = append(rapid.SliceOfN(rapid.Custom(genJwtCfg), 0, 3).Draw(t, "cfgs"), JwtCfg{Alg: rapid.SampledFrom([]string{"HS256", "HS384", "HS512"}).Draw(t, "hsalg"), Src: "secret", Keys: []int{intR(t, "hskey", 0, nKeys-1)}})
	c.Par = rapid.SampledFrom([]int{1, 8}).Draw(t, "par")
	c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SecretReq {
		r := SecretReq{To: rapid.SampledFrom([]string{"r", "r", "jwt", "jwt", "jwt", "jwt", "ajwt", "nope", "dead", "about", "un", "big", "brew"}).Draw(t, "to"), Seed: uint32(intR(t, "seed", 0, 1<<30))}
		e := &r.E
		e.Method = rapid.SampledFrom([]string{"GET", "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE"}).Draw(t, "m")
		e.Target = map[string]string{"r": "/r/x", "nope": "/nope", "dead": "/dead", "about": "/about", "un": "/un", "big": "/r/big", "brew": "/r/brew"}[r.To]
		if r.To == "brew" {
			e.Method = "BREW"
		}
		if inList(e.Method, "POST", "PUT") {
			n := intR(t, "bn", 30, 900)
			if r.To == "big" {
				n = 3000
			}
			e.Framing, e.Body = rapid.SampledFrom([]string{"cl", "chunked"}).Draw(t, "fr"), BodySpec{rapid.SampledFrom([]string{"text", "rand"}).Draw(t, "bk"), n, r.Seed}
		}
		for _, h := range []string{"Cookie", "X-Api-Key", "Proxy-Authorization", "X-Csrf-Token"} {
			if chance(t, h, 40) {
				e.Hdrs = append(e.Hdrs, HV{h, map[string]string{"Cookie": "sid=", "Proxy-Authorization": "Basic "}[h] + secretMark(r.Seed, h)})
			}
		}
		switch {
		case r.To == "jwt" || r.To == "ajwt":
			jr := JwtReq{Cfg: intR(t, "cfg", 0, len(c.Cfgs)-1)}
			jr.Tok = genTok(t, c.Cfgs[jr.Cfg])
			jr.Tok.Wrap = ""
			r.Tok = &jr
			if chance(t, "odd", 20) {
				// no token at all, but likely somebody's credentials
				r.Tok = nil
				e.Hdrs = append(e.Hdrs, HV{"Authorization", rapid.SampledFrom([]string{"Basic @", "Bearer @", "@", "Bearer @.@.@", "Bearer  @", "Token @", "Bearer {\"payload\":\"@\"}", "Bearer @.", "Digest username=\"x\", response=\"@\"", "bearer @.@"}).Draw(t, "oddv")})
				e.Hdrs[len(e.Hdrs)-1][1] = strings.ReplaceAll(e.Hdrs[len(e.Hdrs)-1][1], "@", secretMark(r.Seed, "auth"))
			}
			e.Target = fmt.Sprintf("/%c%d", "ja"[map[string]int{"jwt": 0, "ajwt": 1}[r.To]], jr.Cfg)
		case chance(t, "auth", 40):
			e.Hdrs = append(e.Hdrs, HV{"Authorization", rapid.SampledFrom([]string{"Basic ", "Bearer ", ""}).Draw(t, "authk") + secretMark(r.Seed, "auth")})
		}
		if chance(t, "dbg", 20) {
			e.Hdrs = append(e.Hdrs, HV{"X-Request-Debug", "true"})
		}
		if chance(t, "ae", 30) {
			e.Hdrs = append(e.Hdrs, HV{"Accept-Encoding", rapid.SampledFrom([]string{"gzip", "identity"}).Draw(t, "aev")})
		}
		for n := intR(t, "nups", 1, c.Max); n > 0; n-- {
			u := UpResp{Status: rapid.SampledFrom([]int{200, 200, 200, 302, 400, 401, 403, 404, 429, 500, 502, 503}).Draw(t, "st"), Body: BodySpec{"text", intR(t, "un", 30, 500), r.Seed + uint32(n)}}
			u.Hdrs = []HV{{"Set-Cookie", "sid=" + secretMark(r.Seed, "setcookie")}, {"X-Session-Token", secretMark(r.Seed, "session")}, {"Www-Authenticate", "Basic realm=\"" + secretMark(r.Seed, "realm") + "\""}}
			u.Fault = rapid.SampledFrom([]string{"", "", "", "", "close", "garbage", "trunc"}).Draw(t, "fault")
			if chance(t, "broken", 15) {
				m := secretMark(r.Seed, "session")
				u = UpResp{Raw: []byte(strings.ReplaceAll(rapid.SampledFrom([]string{"HTTP/1.1 200 OK\r\nX-Session-Token @\r\nContent-Length: 0\r\n\r\n", "@\r\n\r\n", "HTTP/1.1 @ OK\r\n\r\n", "@ 200 OK\r\n\r\n",
					"HTTP/1.1 200 OK\r\nContent-Length: @\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: @\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n@\r\n", "HTTP/1.1 302 OK\r\nLocation: http://@:x/%zz\r\nContent-Length: 3\r\n\r\n", "HTTP/1.1 200 OK\r\nX-Session-Token: @\r\nContent-Length: 5\r\n\r\n", "HTTP/1.1 200 OK\r\nX-Session-Token: @\x00\r\nContent-Length: 0\r\n\r\n"}).Draw(t, "brokenv"), "@", m))}
			}
			e.Ups = append(e.Ups, u)
		}
		return r
	}), 1, 30).Draw(t, "reqs")
	return c
}

var longBase64 = regexp.MustCompile(`[A-Za-z0-9_+/=-]{20,}`)

// keySecrets gives the lines of a PEM key that are not the same for every key, and whole HMAC secrets.
func keySecrets(doc map[string]any) map[string]string {
	s := map[string]string{}
	sub := func(m any, k string) any { x, _ := m.(map[string]any); return x[k] }
	if k, ok := sub(sub(sub(doc, "connection"), "downstream"), "key").(string); ok && strings.Contains(k, "PRIVATE KEY") {
		for _, l := range strings.Split(k, "\n") {
			if len(l) > 40 && !strings.HasPrefix(l, "-----") {
				s[l] = "the private key of the TLS certificate"
			}
		}
	}
	jwts, _ := doc["jwt"].(map[string]any)
	for n, j := range jwts {
		alg, _ := sub(j, "alg").(string)
		if k, ok := sub(j, "key").(string); ok && strings.HasPrefix(alg, "HS") && len(k) >= 12 {
			s[k] = "the HMAC secret of jwt " + n
			s[base64.StdEncoding.EncodeToString([]byte(k))] = "the encoded HMAC secret of jwt " + n
		}
	}
	return s
}

func leaks(o *Outcome, where, text string, secrets map[string]string) {
	for s, what := range secrets {
		if i := strings.Index(text, s); i >= 0 {
			o.failf("%s: holds %s: ...%s...", where, what, text[max(0, i-200):min(len(text), i+len(s)+60)])
			return
		}
	}
}

func runSecretCase(env *Env, ci any) (o Outcome) {
	c := ci.(*SecretCase)
	if c.Bad != nil {
		v := Outcome{}
		p := playBad(env, c.Bad, func(doc map[string]any, j *J8a) {
			leaks(&v, "the log of a start with a configuration with flaw \""+c.Bad.Bad+"\" or without", j.stderr.String()+j.stdout.String(), keySecrets(doc))
		})
		o.Infra = p.Infra
		o.item(fmt.Sprint(*c.Bad), c.Bad.TLS || strings.HasPrefix(c.Bad.Alg, "HS"), "badcfg", "badcfg-"+c.Bad.Bad)
		o.Viol = v.Viol // what else a start does is judged by P17
		return
	}
	js, err := newJwksServer()
	if err != nil {
		o.Infra = err.Error()
		return
	}
	defer js.ln.Close()
	cfg := Cfg{Jwt: map[string]any{}, Resources: map[string][]CfgRes{"r": {{Up: 0}}, "dead": {{Up: -1, Host: "127.0.0.1", Port: 1}}},
		Routes: []CfgRoute{{Path: "/r", Resource: "r"}, {Path: "/dead", Resource: "dead"}, {Path: "/about", Resource: "about"}, {Path: "/un", Resource: "nosuch"}},
		Up:     map[string]any{"maxAttempts": c.Max}, Down: map[string]any{"maxBodyBytes": 2000}}
	for i, jc := range c.Cfgs {
		cfg.Jwt[fmt.Sprintf("jwt%d", i)] = jc.section(i, js)
		cfg.Routes = append(cfg.Routes, CfgRoute{Path: fmt.Sprintf("/j%d", i), Resource: "r", Jwt: fmt.Sprintf("jwt%d", i)}, CfgRoute{Path: fmt.Sprintf("/a%d", i), Resource: "about", Jwt: fmt.Sprintf("jwt%d", i)})
	}
	var tlsConf *tls.Config
	if c.TLS {
		specs := tlsChain(true, false)
		ders, err := makeChain(specs, time.Now())
		if err != nil {
			o.Infra = err.Error()
			return
		}
		cfg.Down["mode"], cfg.Down["cert"], cfg.Down["key"] = "TLS", chainPEM(ders...), keyPEM(specs[0])
		tlsConf = &tls.Config{ServerName: "j8a.test", RootCAs: poolOf(ders[len(ders)-1])}
	}
	j := startOrFail(env, cfg, startOpt{viaEnv: c.Env, env: []string{"LOGLEVEL=" + c.Level, "LOGCOLOR=" + c.Color}}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	keys := keySecrets(map[string]any{"jwt": cfg.Jwt, "connection": map[string]any{"downstream": cfg.Down}})
	logged, answered := map[string]string{}, map[string]string{}
	for s, what := range keys {
		logged[s], answered[s] = what, what
	}
	add := func(s, what string) { logged[s], answered[s] = what, what }
	now := time.Now().Unix()
	var xs []Exch
	for i, r := range c.Reqs {
		e := r.E
		where := fmt.Sprintf(" of request %d, %s", i, e.Target)
		for _, h := range []string{"Cookie", "X-Api-Key", "Proxy-Authorization", "X-Csrf-Token", "auth"} {
			add(secretMark(r.Seed, h), "the "+h+where)
		}
		for _, h := range []string{"setcookie", "session", "realm"} {
			logged[secretMark(r.Seed, h)] = "the upstream's " + h + where
		}
		if r.Tok != nil {
			tok := r.Tok.Tok.build(c.Cfgs[r.Tok.Cfg], now)
			e.Hdrs = append(append([]HV{}, e.Hdrs...), HV{"Authorization", "Bearer " + tok})
			for _, s := range longBase64.FindAllString(tok, -1) {
				add(s, "a part of the token"+where)
			}
		}
		if b := e.Body.bytes(); len(b) >= 30 {
			logged[string(b[3:27])] = "the body" + where
		}
		for _, u := range e.Ups {
			if b := u.Body.bytes(); len(b) >= 30 {
				logged[string(b[3:27])] = "the upstream's body" + where
			}
		}
		xs = append(xs, e)
	}
	dialer := func() (*Conn, error) {
		if c.TLS {
			return dialTLS(j.Addr, tlsConf)
		}
		return dial(j.Addr)
	}
	for i, x := range env.runBatchHook(j, xs, c.Par, true, dialer) {
		r := c.Reqs[i]
		kind := ""
		if r.Tok != nil {
			kind = "token-" + r.Tok.Tok.Mut
		}
		o.item(fmt.Sprint(c.Level, r), true, "to-"+r.To, fmt.Sprintf("status-%d", x.Resp.Status), kind)
		if x.Resp.Err != nil {
			continue // judged by others
		}
		text := fmt.Sprint(x.Resp.Hdr) + string(x.Resp.Body)
		if b, err := decoded(x.Resp); err == nil {
			text += string(b)
		}
		where := fmt.Sprintf("the response to %s %s (%d)", x.E.Method, x.E.Target, x.Resp.Status)
		leaks(&o, where, text, answered)
		if x.Resp.Status >= 400 {
			for _, h := range []string{"setcookie", "session", "realm"} {
				leaks(&o, where, text, map[string]string{secretMark(r.Seed, h): "what only the failed upstream response held"})
			}
		}
	}
	time.Sleep(20 * time.Millisecond)
	leaks(&o, "the log at level "+c.Level, j.stderr.String()+j.stdout.String(), logged)
	finish(env, j, &o)
	return
}

func init() {
	register(&Prop{ID: "P32", Gen: genSecretCase, New: func() any { return &SecretCase{} }, Run: runSecretCase, NeedBB: true, Quick: 120, Shards: 8,
		Rule: "A case is a booted proxy (all log levels, coloured or not, HTTP or TLS, configured by file or environment, HMAC and other jwt sections) plus 1-30 requests of every outcome with marked cookies, credentials, tokens (honest, tampered, malformed), bodies, and upstream responses with marked headers and bodies, well-formed and broken; or, in one case of five, the start with a broken configuration of P17. Neither the log nor any answer may hold HMAC secrets, the TLS key, tokens or parts of them, credentials; the log also no bodies and header values, error answers nothing of the upstream response. Non-trivial: all, of the broken configurations those with a secret."})
}
