package main

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"regexp"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ---- P35: a request is treated the same whichever way it comes in ----

// Way is one way of serving the same requests with the same rules.
type Way struct {
	Via    string // plain h1-12 h1-13 h2
	KA     bool
	Par    int
	Pieces int    // the request is written in this many pieces
	V6     bool   // over IPv6, where the sandbox has it
	Frame  string // how bodies are framed, "" as the request says
	Chunk  int
	Abs    string // absolute form targets
	Rot    int    // the requests are played in another order
	Warm   bool   // after the same requests were all served once
	Style  ymlStyle
	Env    bool   // configuration comes from the environment
	Extra  int    // bits: unrelated routes, resources, policies, jwt; documented defaults spelled out
	Perm   uint32 // order of the routes
	Level  string
	Color  string
	TZ     string
	Debug  bool // the requests ask for debug logging
	HCase  int  // header names in lower or upper case
	HPad   int  // white space around header values
	HSort  bool // headers in order of their names
}
type WaysCase struct {
	Cfg  Cfg
	Reqs []Exch
	Ways []Way
}

const (
	xRoutes = 1 << iota
	xResources
	xPolicies
	xJwt
	xDefaults
	xUpDefaults
)

var wayPlain = Way{Via: "plain", Par: 1, Style: ymlStyle{JSON: true}}

func genWay(t *rapid.T) Way {
	w := Way{Via: rapid.SampledFrom([]string{"h2", "plain", "h1-13", "h1-12", "h2"}).Draw(t, "via"), KA: rapid.Bool().Draw(t, "ka"), Par: rapid.SampledFrom([]int{1, 4, 12}).Draw(t, "par"),
		V6: chance(t, "v6", 20), Frame: rapid.SampledFrom([]string{"", "cl", "chunked", "chunkedx"}).Draw(t, "frame"), Chunk: rapid.SampledFrom([]int{1, 13, 512, 4096}).Draw(t, "chunk"),
		Rot: intR(t, "rot", 0, 9), Warm: chance(t, "warm", 30), Style: genStyle(t), Env: chance(t, "env", 30), Extra: intR(t, "extra", 0, 63), Perm: uint32(intR(t, "perm", 0, 1<<16)),
		Level: rapid.SampledFrom([]string{"", "TRACE", "DEBUG", "INFO", "WARN", "trace", "nonsense"}).Draw(t, "level"), Color: rapid.SampledFrom([]string{"", "true", "false"}).Draw(t, "color"),
		TZ: rapid.SampledFrom([]string{"UTC", "Australia/Sydney", "America/New_York", "nowhere"}).Draw(t, "tz"), Debug: chance(t, "debug", 20)}
	if chance(t, "pieces", 30) {
		w.Pieces = intR(t, "npieces", 2, 12)
	}
	w.HSort = chance(t, "hsort", 20)
	if w.Via != "h2" {
		w.Abs = genAbs(t)
		w.HCase, w.HPad = intR(t, "hcase", 0, 2), intR(t, "hpad", 0, 3)
	}
	return w
}

func genWaysCase(t *rapid.T) any {
	c := &WaysCase{}
	c.Cfg = Cfg{Resources: map[string][]CfgRes{"r": {{Up: 0, Labels: []string{"a"}}}, "s": {{Up: 1, Labels: []string{"b"}}, {Up: 2, Labels: []string{"a"}}}},
		Policies: map[string][]CfgLW{"p": {{"a", 1}}}, Up: map[string]any{"maxAttempts": intR(t, "max", 1, 3)}, Down: map[string]any{},
		Jwt: map[string]any{"j": map[string]any{"alg": "HS256", "key": "s3cr3t-s3cr3t-s3cr3t-s3cr3t-s3cr3t"}}}
	maxBody := 0
	if chance(t, "maxBody", 40) {
		maxBody = rapid.SampledFrom([]int{10, 3000, 9000}).Draw(t, "maxBodyV")
		c.Cfg.Down["maxBodyBytes"] = maxBody
	}
	paths := []string{"/r", "/t", "/jwt", "/p", "/about", "/nores", "/badpol"}
	if chance(t, "nested", 60) {
		paths = append(paths, rapid.SampledFrom([]string{"/r/a", "/t/a", "/rr", "/jwt/open", "/r/a/b", "/p/t"}).Draw(t, "nest"))
	}
	for i, p := range paths {
		r := CfgRoute{Path: p, Resource: "r"}
		switch {
		case p == "/t":
			r.Transform = rapid.SampledFrom([]string{"/", "/x", "/x/y", "/a/"}).Draw(t, "tr")
		case p == "/jwt":
			r.Jwt = "j"
		case p == "/p":
			r.Resource, r.Policy = "s", "p"
		case p == "/about":
			r.Resource = "about"
		case p == "/nores":
			r.Resource = "missing"
		case p == "/badpol":
			r.Policy = "missing"
		case i >= 7:
			r.Resource, r.Policy = "s", "p"
		}
		c.Cfg.Routes = append(c.Cfg.Routes, r)
	}
	h := map[string]any{"alg": "HS256", "typ": "JWT"}
	good := []byte("s3cr3t-s3cr3t-s3cr3t-s3cr3t-s3cr3t")
	toks := []string{mkToken(h, map[string]any{"sub": "x", "exp": 4000000000}, "HS256", good), mkToken(h, map[string]any{"sub": "x", "exp": 1000000000}, "HS256", good),
		mkToken(h, map[string]any{"sub": "x"}, "HS256", []byte("another")), "a.b.c", ""}
	c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Exch {
		e := genReq(t, "", 1)
		e.Proto, e.Abs = "", ""
		p := append(paths, "/none", "/r", "/r", "/t", "/p")[intR(t, "path", 0, len(paths)+4)]
		if chance(t, "exact", 20) {
			e.Target = p + genQuery(t)
		} else {
			e.Target = p + genPath(t, 3) + genQuery(t)
		}
		if chance(t, "badm", 5) {
			e.Method, e.Body, e.Framing = rapid.SampledFrom([]string{"PATCH", "PROPFIND", "get"}).Draw(t, "bm"), BodySpec{}, ""
		}
		if maxBody > 0 && e.Framing != "" && chance(t, "edge", 50) {
			e.Body.Size = maxBody + intR(t, "over", -1, 2)
		}
		// an HTTP/2 client may split one Cookie line, which reaches the proxy as several
		var hs []HV
		for _, x := range e.Hdrs {
			if !inList(x[0], "Cookie", "Authorization") {
				hs = append(hs, x)
			}
		}
		if p == "/jwt" {
			if tok := toks[intR(t, "tok", 0, len(toks)-1)]; tok != "" {
				hs = append(hs, HV{"Authorization", "Bearer " + tok})
			}
		}
		e.Hdrs = hs
		u := genUpOK(t, 2)
		if chance(t, "fail", 30) {
			n := intR(t, "nfail", 1, 3)
			for i := 0; i < n; i++ {
				e.Ups = append(e.Ups, UpResp{Status: rapid.SampledFrom([]int{500, 502, 503, 504, 404, 401, 400, 429}).Draw(t, "fs"), Hdrs: []HV{{"X-Fail", itoa(i)}}, Body: genBody(t, 0)})
			}
		}
		e.Ups = append(e.Ups, u)
		return e
	}), 1, 14).Draw(t, "reqs")
	c.Ways = append([]Way{wayPlain}, rapid.SliceOfN(rapid.Custom(genWay), 1, 3).Draw(t, "ways")...)
	return c
}

// pieces is a connection that writes in n pieces.
type pieces struct {
	net.Conn
	n int
}

func (p pieces) Write(b []byte) (int, error) {
	done := 0
	for i := 0; i < p.n && done < len(b); i++ {
		end := done + len(b)/p.n + 1
		if end > len(b) || i == p.n-1 {
			end = len(b)
		}
		n, err := p.Conn.Write(b[done:end])
		done += n
		if err != nil {
			return done, err
		}
		time.Sleep(300 * time.Microsecond)
	}
	return done, nil
}

// dress gives the configuration of a way: the same rules with other things around.
func (c *WaysCase) dress(w Way) Cfg {
	cfg := Cfg{Resources: map[string][]CfgRes{}, Policies: map[string][]CfgLW{}, Jwt: map[string]any{}, Up: map[string]any{}, Down: map[string]any{}}
	cfg.Routes = append(cfg.Routes, c.Cfg.Routes...)
	if w.Extra&xRoutes != 0 {
		cfg.Routes = append(cfg.Routes, CfgRoute{Path: "/unrelated", Resource: "r", Transform: "/elsewhere"}, CfgRoute{Path: "/x-longer/than/any/other/path", Resource: "s", Policy: "p"}, CfgRoute{Path: "/unrelated/jwt", Resource: "r", Jwt: "j"})
	}
	for k, v := range c.Cfg.Resources {
		cfg.Resources[k] = v
	}
	if w.Extra&xResources != 0 {
		cfg.Resources["unrelated"] = []CfgRes{{Up: 3, Labels: []string{"a"}}}
		cfg.Resources["zz"] = []CfgRes{{Up: -1, Scheme: "https", Host: "unrelated.example", Port: 1}}
	}
	for k, v := range c.Cfg.Policies {
		cfg.Policies[k] = v
	}
	if w.Extra&xPolicies != 0 {
		cfg.Policies["unrelated"] = []CfgLW{{"b", 0.3}, {"a", 0.7}}
	}
	for k, v := range c.Cfg.Jwt {
		cfg.Jwt[k] = v
	}
	if w.Extra&xJwt != 0 {
		cfg.Jwt["unrelated"] = map[string]any{"alg": "HS512", "key": "something else entirely", "claims": []string{".admin"}}
		cfg.Jwt["nobody"] = map[string]any{"alg": "none"}
	}
	for k, v := range c.Cfg.Up {
		cfg.Up[k] = v
	}
	for k, v := range c.Cfg.Down {
		cfg.Down[k] = v
	}
	if w.Extra&xDefaults != 0 {
		cfg.Down["readTimeoutSeconds"], cfg.Down["roundTripTimeoutSeconds"], cfg.Down["idleTimeoutSeconds"] = 120, 240, 120
		if cfg.Down["maxBodyBytes"] == nil {
			cfg.Down["maxBodyBytes"] = 2 << 20
		}
	}
	if w.Extra&xUpDefaults != 0 {
		cfg.Up["socketTimeoutSeconds"], cfg.Up["readTimeoutSeconds"], cfg.Up["idleTimeoutSeconds"], cfg.Up["poolSize"], cfg.Up["tlsInsecureSkipVerify"] = 3, 120, 120, 32768, false
	}
	s := w.Perm
	for i := len(cfg.Routes) - 1; i > 0 && w.Perm > 0; i-- {
		s = s*1664525 + 1013904223
		k := int(s>>8) % (i + 1)
		cfg.Routes[i], cfg.Routes[k] = cfg.Routes[k], cfg.Routes[i]
	}
	return cfg
}

// spell writes the same headers in another way.
func (w Way) spell(hs []HV) []HV {
	out := append([]HV{}, hs...)
	if w.HSort {
		sort.SliceStable(out, func(i, k int) bool { return strings.ToLower(out[i][0]) < strings.ToLower(out[k][0]) })
	}
	for i := range out {
		switch w.HCase {
		case 1:
			out[i][0] = strings.ToLower(out[i][0])
		case 2:
			out[i][0] = strings.ToUpper(out[i][0])
		}
		out[i][1] = []string{"", "  ", "\t", ""}[w.HPad] + out[i][1] + []string{"", "", " ", "\t "}[w.HPad]
	}
	return out
}

var hex8 = regexp.MustCompile(`\b[0-9a-f]{8}\b`)

func hdrLines(h http.Header, drop func(k, v string) bool) string {
	var l []string
	for k, vs := range h {
		for i, v := range vs {
			if !drop(k, v) {
				l = append(l, fmt.Sprintf("%s[%d]: %q", k, i, v))
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n    ")
}

// seen describes an exchange: what the client got and what upstreams saw, without what may differ between two runs.
func seen(x XR) string {
	own := strings.TrimSpace(strings.Join(x.E.hdr("X-Request-Id"), "|")) // an id the client chose stays
	id := func(v string) string {
		if own != "" && v == own {
			return v
		}
		return "(minted)"
	}
	d := x.Resp
	sv := strings.Join(d.Hdr["Server"], "|")
	hs := hdrLines(d.Hdr, func(k, v string) bool {
		if d.Status == 304 && k == "Content-Type" {
			return true // see checkRespFidelity
		}
		return inList(k, "Date", "Connection", "Transfer-Encoding", "Content-Length", "Strict-Transport-Security", "X-Request-Id", "Server", "Keep-Alive")
	})
	body, err := decoded(d)
	text := fmt.Sprintf("%d bytes, hash %x, %q", len(body), sum32(body), trunc(string(body), 60))
	var doc map[string]any
	if len(d.Hdr["Content-Type"]) > 0 && strings.HasPrefix(d.Hdr["Content-Type"][0], "application/json") && serverHdrRe.MatchString(sv) && json.Unmarshal(body, &doc) == nil && doc["ServerID"] != nil {
		delete(doc, "j8a")
		delete(doc, "ServerID")
		if s, ok := doc["XRequestID"].(string); ok {
			doc["XRequestID"] = id(s)
		}
		for k := range doc {
			if strings.Contains(strings.ToLower(k), "time") {
				delete(doc, k)
			}
		}
		b, _ := json.Marshal(doc)
		text = string(b)
	}
	var s strings.Builder
	fmt.Fprintf(&s, "answer %d, X-Request-Id %s, Server %q\n    %s\n  body %s (decoding: %v)\n", d.Status, id(strings.Join(d.Hdr["X-Request-Id"], "|")), hex8.ReplaceAllString(sv, "#"), hs, text, err)
	for i, u := range x.Ups {
		hs := hdrLines(u.Hdr, func(k, v string) bool {
			return inList(k, "X-Request-Id", "X-Request-Debug", "Content-Length", "Transfer-Encoding", idHeader) || k == "User-Agent" && strings.HasPrefix(v, "Go-http-client/")
		})
		fmt.Fprintf(&s, "  attempt %d at %s: %s %s host %s, X-Request-Id %s, body %d bytes, hash %x %s\n    %s\n", i+1, u.Server, u.Method, u.URI, u.Host, id(strings.Join(u.Hdr["X-Request-Id"], "|")), len(u.Body), sum32(u.Body), u.BodyErr, hs)
	}
	return s.String()
}

func sum32(b []byte) uint32 {
	h := uint32(2166136261)
	for _, c := range b {
		h = (h ^ uint32(c)) * 16777619
	}
	return h
}

func runWaysCase(env *Env, ci any) (o Outcome) {
	c := ci.(*WaysCase)
	specs := tlsChain(true, false)
	ders, err := makeChain(specs, time.Now())
	if err != nil {
		o.Infra = err.Error()
		return
	}
	var base []string
	var basePlay []XR
	for wi, w := range c.Ways {
		cfg := c.dress(w)
		if w.Via != "plain" {
			cfg.Down["mode"], cfg.Down["cert"], cfg.Down["key"] = "TLS", chainPEM(ders...), keyPEM(specs[0])
		}
		// ports are numbers wherever they stand, so they are put in as numbers and swapped for the real one by start
		raw := strings.Replace(w.Style.emit(cfg.doc(987654321, env.hub())), "987654321", "@PORT@", 1)
		so := startOpt{raw: []byte(raw), viaEnv: w.Env}
		if w.Level != "" {
			so.env = append(so.env, "LOGLEVEL="+w.Level)
		}
		if w.Color != "" {
			so.env = append(so.env, "LOGCOLOR="+w.Color)
		}
		if w.TZ != "" {
			so.env = append(so.env, "TZ="+w.TZ)
		}
		j := startOrFail(env, cfg, so, &o)
		if j == nil {
			return
		}
		func() {
			defer j.stop()
			if w.V6 && haveV6 {
				j.Addr = fmt.Sprintf("[::1]:%d", j.Port)
			}
			conf := &tls.Config{ServerName: "j8a.test", RootCAs: poolOf(ders[len(ders)-1])}
			xs := make([]Exch, len(c.Reqs))
			order := make([]int, len(c.Reqs))
			for i := range xs {
				k := (i + w.Rot) % len(xs)
				if w.Rot > 4 {
					k = len(xs) - 1 - k
				}
				x := c.Reqs[k]
				if x.Framing != "" && w.Frame != "" {
					x.Framing, x.Chunk = w.Frame, w.Chunk
				}
				if w.Debug {
					x.Hdrs = append(append([]HV{}, x.Hdrs...), HV{"X-Request-Debug", "true"})
				}
				x.Hdrs = w.spell(x.Hdrs)
				if w.Abs != "" {
					x.Abs = w.Abs
				}
				// @UP@ and @ADDR@ stand for addresses; the proxy's differs from way to way
				xs[i], order[i] = x.expand(env.hub(), &J8a{Addr: "127.0.0.1:7"}), k
			}
			play := func() []XR {
				if w.Via == "h2" {
					return env.h2Batch(j, conf, xs, w.Par)
				}
				vers := uint16(tls.VersionTLS13)
				if w.Via == "h1-12" {
					vers = tls.VersionTLS12
				}
				return env.runBatchHook(j, xs, w.Par, w.KA, func() (*Conn, error) {
					cn, err := dial(j.Addr)
					if err != nil {
						return nil, err
					}
					if w.Pieces > 1 {
						cn = newConn(pieces{cn.c, w.Pieces})
					}
					if w.Via == "plain" {
						return cn, nil
					}
					tc := tls.Client(cn.c, &tls.Config{ServerName: "j8a.test", RootCAs: conf.RootCAs, MinVersion: vers, MaxVersion: vers})
					tc.SetDeadline(time.Now().Add(clientDeadline))
					if err := tc.Handshake(); err != nil {
						cn.c.Close()
						return nil, err
					}
					return newConn(tc), nil
				})
			}
			if w.Warm {
				play()
			}
			out := make([]XR, len(xs))
			for i, x := range play() {
				out[order[i]] = x
			}
			got := make([]string, len(xs))
			for i, x := range out {
				if x.Resp.Err != nil {
					if m, ok := c.Cfg.Down["maxBodyBytes"].(int); w.Via == "h2" && !x.Resp.Hang && (ok && x.E.Body.Size > m || x.E.Body.Size > 2<<20) {
						continue // the stream may be reset while the oversized body is still being sent
					}
					if wi > 0 {
						o.failf("way %d %s: %s %s got no answer, the plain way it did: %s", wi, wayText(w), x.E.Method, x.E.Target, x.Resp.brief())
						o.Hang = o.Hang || x.Resp.Hang
					} else {
						noResp(&o, x)
					}
					continue
				}
				got[i] = seen(x)
			}
			if wi == 0 {
				base, basePlay = got, out
			}
			for i := range got {
				if wi == 0 || got[i] == "" || base[i] == "" {
					continue
				}
				nt := basePlay[i].Resp.Status != 404
				o.item(fmt.Sprint(w, c.Reqs[i]), nt, "via-"+w.Via, fmt.Sprintf("status-%d", basePlay[i].Resp.Status))
				if got[i] != base[i] {
					a, b := firstDiff(base[i], got[i])
					o.failf("%s %s %v (body %d bytes, %s) is treated differently %s:\nthe plain way: %s\nthis way:      %s", c.Reqs[i].Method, c.Reqs[i].Target, c.Reqs[i].Hdrs, c.Reqs[i].Body.Size, c.Reqs[i].Framing, wayText(w), a, b)
				}
			}
			finish(env, j, &o)
		}()
		if !j.alive() && o.Infra != "" {
			return
		}
	}
	return
}

func wayText(w Way) string {
	var s bytes.Buffer
	b, _ := json.Marshal(w)
	s.Write(b)
	return s.String()
}

func firstDiff(a, b string) (string, string) {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) && i < len(lb); i++ {
		if la[i] != lb[i] {
			return trunc(strings.TrimSpace(la[i]), 700), trunc(strings.TrimSpace(lb[i]), 700)
		}
	}
	return trunc(fmt.Sprintf("%d more lines: %v", len(la)-len(lb), la[min(len(la), len(lb)):]), 700), trunc(fmt.Sprintf("%v", lb[min(len(la), len(lb)):]), 700)
}

func init() {
	register(&Prop{ID: "P35", Gen: genWaysCase, New: func() any { return &WaysCase{} }, Run: runWaysCase, NeedBB: true, Quick: 150, Shards: 7,
		Rule: "A case is a set of up to 14 generated requests (proxied, transformed, by policy, with valid, invalid and no tokens, to about, unmatched, unmapped, with illegal methods, with bodies around the size limit, to upstreams that succeed or fail first) served once the plain way (HTTP/1.1, a new connection each, one at a time, JSON configuration in a file) and then 1-3 other ways: HTTP/2, TLS 1.2 or 1.3, IPv6, kept connections, 4 or 12 clients, requests written in pieces, lengths or chunks, absolute targets, another spelling and order of headers, another order of requests, after earlier traffic, another spelling, source and order of the configuration with unrelated things and defaults spelled out, another log level, colour and time zone, debug logging asked for. Each evaluation compares status, headers and decoded body of the answer, and number, place, method, target, headers and body of the upstream attempts, with those of the plain way. Non-trivial: the request matched a route."})
}
