package main

import (
	"crypto/tls"
	"encoding/json"
	"fmt"
	"net"
	"net/netip"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// ---- P20: access log ----

type LogReq struct {
	E   Exch
	To  string
	Tok *LogTok `json:",omitempty"`
}

// a token for the jwt route; dates are in seconds from now
type LogTok struct {
	Key           int // 0: the right one
	Iat, Nbf, Exp *int64
}
type LogCase struct {
	TZ    string
	Color string // LOGCOLOR, to no effect
	Level string // as written in LOGLEVEL; "-" leaves it unset
	TLS   string // "" plain, 12, 13, h2
	Src   string // client address
	Max   int
	Par   int
	KA    bool
	Reqs  []LogReq
	Bad   int // failed TLS handshakes
	Leave int `json:",omitempty"` // requests whose client does not wait
	Addrs []AddrCase
}
type AddrCase struct {
	Addr string
	Port int
	Form int
}

var genAddr4 = rapid.Custom(func(t *rapid.T) string {
	o := func(l string) int {
		return rapid.OneOf(rapid.IntRange(0, 255), rapid.SampledFrom([]int{0, 1, 9, 10, 19, 20, 25, 99, 100, 199, 200, 249, 250, 255})).Draw(t, l)
	}
	return fmt.Sprintf("%d.%d.%d.%d", o("a"), o("b"), o("c"), o("d"))
})

var genAddr6 = rapid.Custom(func(t *rapid.T) string {
	var b [16]byte
	mask := rapid.IntRange(0, 255).Draw(t, "zeros")
	for i := 0; i < 8; i++ {
		if mask>>i&1 == 1 {
			continue
		}
		g := rapid.OneOf(rapid.IntRange(1, 0xffff), rapid.SampledFrom([]int{1, 0xf, 0xff, 0xfff, 0xffff, 0xabcd, 0xfe80, 0x2001, 0xdb8})).Draw(t, "g")
		b[2*i], b[2*i+1] = byte(g>>8), byte(g)
	}
	a := netip.AddrFrom16(b)
	if a.Is4In6() {
		return "2001:db8::1"
	}
	return a.String()
})

func genLogCase(t *rapid.T) any {
	c := &LogCase{Level: rapid.SampledFrom([]string{"INFO", "INFO", "info", "-", "", "DEBUG", "debug", "TRACE", "trace", "WARN", "Warn", "verbose"}).Draw(t, "level"), TLS: rapid.SampledFrom([]string{"", "", "12", "13", "h2"}).Draw(t, "tls"), Max: intR(t, "max", 1, 3),
		Par: rapid.SampledFrom([]int{1, 4, 12}).Draw(t, "par"), KA: rapid.Bool().Draw(t, "ka")}
	c.TZ = rapid.SampledFrom([]string{"", "UTC", "Asia/Tokyo", "America/St_Johns", "Australia/Sydney", "No/Where"}).Draw(t, "tz")
	c.Color = rapid.SampledFrom([]string{"", "", "false", "NO", "n", "0", "1"}).Draw(t, "color")
	switch {
	case c.TLS == "h2":
		c.Src = "127.0.0.1"
	case chance(t, "v6", 15):
		c.Src = "::1"
	default:
		c.Src = fmt.Sprintf("127.%d.%d.%d", intR(t, "s1", 0, 255), intR(t, "s2", 0, 255), intR(t, "s3", 1, 254))
	}
	lo, hi := many(t, 1, 30)
	c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) LogReq {
		r := LogReq{To: rapid.SampledFrom([]string{"r", "r", "r", "slow", "lab", "about", "nores", "none", "jwt", "jwt", "big", "bad", "up4", "up5", "retry", "dead"}).Draw(t, "to")}
		r.E.Method = rapid.SampledFrom([]string{"GET", "PUT", "POST", "DELETE", "HEAD", "OPTIONS", "TRACE", "get", "Post"}).Draw(t, "method")
		if c.TLS == "h2" {
			r.E.Method = strings.ToUpper(r.E.Method)
		}
		p := map[string]string{"r": "/r", "slow": "/r", "lab": "/lab", "about": "/about", "nores": "/nores", "none": "/none", "jwt": "/jwt", "big": "/r", "bad": "/r", "up4": "/r", "up5": "/r", "retry": "/r", "dead": "/dead"}[r.To]
		r.E.Target = p
		if r.To != "about" {
			r.E.Target += genPath(t, 3)
		}
		r.E.Target += genQuery(t)
		if chance(t, "ua", 60) {
			r.E.Hdrs = append(r.E.Hdrs, HV{"User-Agent", rapid.SampledFrom([]string{"curl/8", `Mo"zilla\5.0 (X11; Linux)`, "bücher/1.0 日本", "</script>&<b>", "tab\there", strings.Repeat("long ", 400) + "x", "{\"level\":\"fatal\"}", "unknown", "0"}).Draw(t, "uav")})
		} else if chance(t, "uae", 20) {
			r.E.Hdrs = append(r.E.Hdrs, HV{"User-Agent", ""})
		}
		if chance(t, "ae", 60) {
			r.E.Hdrs = append(r.E.Hdrs, HV{"Accept-Encoding", rapid.SampledFrom(aeChoices).Draw(t, "aev")})
		}
		if chance(t, "id", 50) {
			r.E.Hdrs = append(r.E.Hdrs, HV{rapid.SampledFrom([]string{"X-Request-Id", "x-request-id", "X-REQUEST-ID"}).Draw(t, "idn"), rapid.SampledFrom([]string{"id", `q"u\ote`, "XR-", "{}", "日本"}).Draw(t, "idv") + "@SEQ@"})
		}
		if chance(t, "dbg", 30) {
			r.E.Hdrs = append(r.E.Hdrs, HV{rapid.SampledFrom([]string{"X-Request-Debug", "x-request-debug"}).Draw(t, "dn"), rapid.SampledFrom([]string{"true", "TRUE", "True", "false", "1", "yes"}).Draw(t, "dv")})
		}
		if chance(t, "http10", 10) && c.TLS != "h2" {
			r.E.Proto = "HTTP/1.0"
		}
		if inList(strings.ToUpper(r.E.Method), "POST", "PUT") {
			r.E.Framing, r.E.Body = "cl", BodySpec{"text", intR(t, "bn", 0, 300), 1}
		}
		ok := UpResp{Status: rapid.SampledFrom([]int{200, 200, 201, 301, 399, 299}).Draw(t, "st"), Body: BodySpec{"text", rapid.SampledFrom([]int{0, 1, 50, 5000}).Draw(t, "un"), 3}, Close: true}
		if ok.Body.Size > 0 && chance(t, "ugz", 30) {
			ok.Enc = "gzip"
		} else if ok.Body.Size > 0 && chance(t, "ubr", 20) {
			ok.Hdrs = append(ok.Hdrs, HV{"Content-Encoding", "br"})
		}
		switch r.To {
		case "jwt":
			if chance(t, "token", 80) {
				k := &LogTok{Key: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "key")}
				d := func(l string, vs ...int64) *int64 {
					if chance(t, l+"?", 40) {
						return nil
					}
					v := rapid.SampledFrom(vs).Draw(t, l)
					return &v
				}
				k.Iat, k.Nbf, k.Exp = d("iat", -100, -100000, -1000000000, -7000000, 5000), d("nbf", -50, -100000, -1000000000, -7000000, 5000), d("exp", 100, 100000, 1000000000, 7000000, -5000)
				r.Tok = k
			}
		case "slow":
			ok.Delay = intR(t, "delay", 10, 60)
		case "big":
			r.E.Method, r.E.Framing, r.E.Body = "PUT", "cl", BodySpec{"text", 2001 + intR(t, "over", 0, 9), 1}
		case "bad":
			r.E.Method, r.E.Framing, r.E.Body = rapid.SampledFrom([]string{"PATCH", "FOO", "GETS"}).Draw(t, "bm"), "", BodySpec{}
		case "up4":
			ok = UpResp{Status: rapid.SampledFrom([]int{400, 401, 404, 418, 429, 499}).Draw(t, "s4"), Body: BodySpec{"text", 20, 1}, Close: true}
		case "up5":
			ok = UpResp{Status: rapid.SampledFrom([]int{500, 503, 599}).Draw(t, "s5"), Body: BodySpec{"text", 20, 1}, Close: true}
		}
		r.E.Abs = genAbs(t)
		r.E.Ups = []UpResp{ok}
		if r.To == "retry" {
			r.E.Method, r.E.Framing, r.E.Body = "GET", "", BodySpec{}
			for n := intR(t, "fails", 1, 3); n > 0; n-- {
				r.E.Ups = append([]UpResp{{Status: 502, Close: true}}, r.E.Ups...)
			}
		}
		return r
	}), lo, hi).Draw(t, "reqs")
	if c.TLS != "" {
		c.Bad = intR(t, "badhs", 0, 3)
	}
	if c.TLS != "h2" {
		c.Leave = intR(t, "leave", 0, 3)
	}
	c.Addrs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) AddrCase {
		a := AddrCase{Port: rapid.OneOf(rapid.IntRange(1, 65535), rapid.SampledFrom([]int{1, 80, 443, 1024, 8080, 65535})).Draw(t, "port"), Form: intR(t, "form", 0, 2)}
		if chance(t, "six", 65) {
			a.Addr = genAddr6.Draw(t, "a6")
		} else {
			a.Addr = genAddr4.Draw(t, "a4")
		}
		return a
	}), 0, 40).Draw(t, "addrs")
	return c
}

var haveV6 = func() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err == nil {
		l.Close()
	}
	return err == nil
}()

var logSeq int64

type logLine struct {
	m   map[string]any
	raw string
}

func parseLog(o *Outcome, s string) (out []logLine) {
	if i := strings.LastIndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	} else {
		return
	}
	for _, l := range strings.Split(s, "\n") {
		var m map[string]any
		if err := json.Unmarshal([]byte(l), &m); err != nil {
			o.failf("log line is not a JSON object: %q", trunc(l, 400))
			continue
		}
		out = append(out, logLine{m, l})
	}
	return
}

func runLogCase(env *Env, ci any) (o Outcome) {
	c := ci.(*LogCase)
	// client address extraction
	if len(c.Addrs) > 0 {
		var in, got []string
		for _, a := range c.Addrs {
			hp := net.JoinHostPort(a.Addr, itoa(a.Port))
			in = append(in, []string{hp, "http: TLS handshake error from " + hp + ": EOF\n", "http: TLS handshake error from " + hp + ": tls: client offered only unsupported versions: [302 301]\n"}[a.Form])
		}
		if !env.ipRun(&o, "extract", in, &got) {
			return
		}
		for i, a := range c.Addrs {
			o.item("addr "+in[i], true, map[bool]string{true: "addr-v6", false: "addr-v4"}[strings.Contains(a.Addr, ":")])
			if got[i] != a.Addr {
				o.failf("client address in %q logged as %q, want %q", in[i], got[i], a.Addr)
			}
		}
		if o.Viol != "" {
			return
		}
	}
	src := c.Src
	if src == "::1" && !haveV6 {
		src = "127.0.0.1"
	}
	cfg := Cfg{Routes: []CfgRoute{{Path: "/r", Resource: "r"}, {Path: "/lab", Resource: "lab", Policy: "p"}, {Path: "/jwt", Resource: "r", Jwt: "j"}, {Path: "/about", Resource: "about"}, {Path: "/nores", Resource: "missing"}, {Path: "/dead", Resource: "dead"}},
		Resources: map[string][]CfgRes{"r": {{Up: 0}}, "lab": {{Up: 1, Labels: []string{"blue"}}}, "dead": {{Up: -1, Host: "127.0.0.1", Port: 1}}},
		Policies:  map[string][]CfgLW{"p": {{Label: "blue", Weight: 1}}},
		Up:        map[string]any{"maxAttempts": c.Max}, Down: map[string]any{"maxBodyBytes": 2000},
		Jwt: map[string]any{"j": map[string]any{"alg": "HS256", "key": hsSecret(0)}}}
	var tlsConf *tls.Config
	if c.TLS != "" {
		specs := tlsChain(true, false)
		ders, err := makeChain(specs, time.Now())
		if err != nil {
			o.Infra = err.Error()
			return
		}
		cfg.Down["mode"], cfg.Down["cert"], cfg.Down["key"] = "TLS", chainPEM(ders...), keyPEM(specs[0])
		tlsConf = &tls.Config{ServerName: "j8a.test", RootCAs: poolOf(ders[len(ders)-1])}
		switch c.TLS {
		case "12":
			tlsConf.MinVersion, tlsConf.MaxVersion = tls.VersionTLS12, tls.VersionTLS12
		case "13":
			tlsConf.MinVersion = tls.VersionTLS13
		}
	}
	so := startOpt{env: []string{"LOGLEVEL=" + c.Level, "TZ=" + c.TZ, "LOGCOLOR=" + c.Color}}
	if c.Level == "-" {
		so.env[0] = "LOGLEVEL="
	}
	j := startOrFail(env, cfg, so, &o)
	if j == nil {
		return
	}
	defer j.stop()
	addr := j.Addr
	if src == "::1" {
		addr = "[::1]:" + itoa(j.Port)
	}
	lvl := map[string]int{"TRACE": 0, "DEBUG": 1, "WARN": 3}[strings.ToUpper(c.Level)]
	if !inList(strings.ToUpper(c.Level), "TRACE", "DEBUG", "WARN") {
		lvl = 2
	}
	bsrc := src // of failed handshakes; never the address of the harness' own readiness probe
	if bsrc == "127.0.0.1" {
		bsrc = "127.9.8.7"
	}
	dialFrom := func(src string) (net.Conn, error) {
		d := net.Dialer{Timeout: 10 * time.Second, LocalAddr: &net.TCPAddr{IP: net.ParseIP(src)}}
		return d.Dial("tcp", addr)
	}
	dialer := func() (*Conn, error) {
		cn, err := dialFrom(src)
		if err != nil {
			return nil, err
		}
		if tlsConf == nil {
			return newConn(cn), nil
		}
		tc := tls.Client(cn, tlsConf)
		tc.SetDeadline(time.Now().Add(clientDeadline))
		if err := tc.Handshake(); err != nil {
			cn.Close()
			return nil, err
		}
		return newConn(tc), nil
	}
	for i := range c.Reqs {
		for k, h := range c.Reqs[i].E.Hdrs {
			c.Reqs[i].E.Hdrs[k][1] = strings.ReplaceAll(h[1], "@SEQ@", fmt.Sprintf("-%d-%d", env.Shard, atomic.AddInt64(&logSeq, 1)))
		}
	}
	var xs []Exch
	t0 := time.Now()
	secrets := map[string]string{hsSecret(0): "the jwt secret"}
	if k, _ := cfg.Down["key"].(string); k != "" {
		secrets[strings.Split(k, "\n")[2]] = "the TLS key"
	}
	for _, r := range c.Reqs {
		if k := r.Tok; k != nil {
			cl := map[string]any{"sub": "x"}
			for n, v := range map[string]*int64{"iat": k.Iat, "nbf": k.Nbf, "exp": k.Exp} {
				if v != nil {
					cl[n] = t0.Unix() + *v
				}
			}
			tok := mkToken(map[string]any{"alg": "HS256", "typ": "JWT"}, cl, "HS256", []byte(hsSecret(k.Key)))
			secrets[tok[strings.LastIndexByte(tok, '.')+1:]] = "a bearer token"
			r.E.Hdrs = append(append([]HV{}, r.E.Hdrs...), HV{"Authorization", "Bearer " + tok})
		}
		xs = append(xs, r.E)
	}
	var out []XR
	if c.TLS == "h2" {
		out = env.h2Batch(j, tlsConf, xs, c.Par)
	} else {
		out = env.runBatchHook(j, xs, c.Par, c.KA, dialer)
	}
	bad := 0
	for i := 0; i < c.Bad; i++ {
		if cn, err := dialFrom(bsrc); err == nil {
			cn.SetDeadline(time.Now().Add(10 * time.Second))
			cn.Write([]byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n"))
			var b [64]byte
			cn.Read(b[:])
			cn.Close()
			bad++
		}
	}
	left := []string{}
	for i := 0; i < c.Leave; i++ {
		cn, err := dialer()
		if err != nil {
			continue
		}
		id := env.hub().newID()
		defer env.hub().take(id)
		env.hub().register(id, []UpResp{{Status: 200, Delay: 100, Close: true}})
		xid := fmt.Sprintf("left-%d-%d", env.Shard, atomic.AddInt64(&logSeq, 1))
		x := Exch{Method: []string{"GET", "POST"}[i%2], Target: "/r/left", Hdrs: []HV{{"X-Request-Id", xid}}}
		if _, err := cn.c.Write(x.raw(id, "j8a.test")); err == nil && waitFor(5*time.Second, func() bool {
			env.hub().mu.Lock()
			defer env.hub().mu.Unlock()
			return len(env.hub().scripts[id].recs) > 0
		}) {
			left = append(left, xid)
		}
		cn.c.Close()
	}
	// which of them have to be in the log
	want := map[string]int{}
	for i, x := range out {
		if noResp(&o, x) {
			return
		}
		id := x.Resp.Hdr.Get("X-Request-Id")
		if id == "" {
			o.failf("response without X-Request-Id: %s", x.Resp.brief())
			return
		}
		if _, dup := want[id]; dup {
			o.failf("two exchanges share the X-Request-Id %q", id)
			return
		}
		want[id] = i
	}
	var lines []logLine
	access, jwts := map[string][]map[string]any{}, map[string][]map[string]any{}
	attempts := map[string]int{}
	hs := 0
	var seen time.Time
	deadline := time.Now().Add(10 * time.Second)
	for settled := false; ; {
		scan := Outcome{}
		seen = time.Now()
		lines = parseLog(&scan, j.stderr.String())
		access, attempts, hs = map[string][]map[string]any{}, map[string]int{}, 0
		jwts = map[string][]map[string]any{}
		for _, l := range lines {
			id, _ := l.m["X-Request-Id"].(string)
			switch msg := l.m["message"]; {
			case msg == "downstream response served" || msg == "downstream error response served":
				access[id] = append(access[id], l.m)
			case msg == "TLS handshake error":
				if ne, _ := l.m["netEvt"].(string); strings.Contains(ne, " from "+net.JoinHostPort(bsrc, "")) {
					hs++
				}
			case l.m["upAtmpt"] != nil:
				attempts[id]++
			}
			if msg, _ := l.m["message"].(string); strings.HasPrefix(msg, "jwt token ") {
				jwts[id] = append(jwts[id], l.m)
			}
		}
		all := hs >= bad
		for id, i := range want {
			if len(access[id]) == 0 && (lvl < 3 || out[i].Resp.Status > 399) {
				all = false
			}
		}
		for _, id := range left {
			if len(access[id]) == 0 && lvl < 3 {
				all = false
			}
		}
		if settled || time.Now().After(deadline) {
			if scan.Viol != "" {
				o.failf("%s", scan.Viol)
			}
			break
		}
		if all {
			settled = true
			time.Sleep(20 * time.Millisecond)
		} else {
			time.Sleep(3 * time.Millisecond)
		}
	}
	for sec, what := range secrets {
		for _, l := range lines {
			if strings.Contains(l.raw, sec) {
				o.failf("%s is in the log: %s", what, trunc(l.raw, 400))
			}
		}
	}
	for _, l := range lines {
		lv, _ := l.m["level"].(string)
		n, known := map[string]int{"trace": 0, "debug": 1, "info": 2, "warn": 3, "error": 4, "fatal": 5, "panic": 6}[lv]
		if !known || n < lvl {
			o.failf("log line of level %q at LOGLEVEL=%s: %s", lv, c.Level, trunc(l.raw, 300))
		}
		ts, _ := l.m["time"].(string)
		if tm, err := time.Parse(time.RFC3339Nano, ts); err != nil || tm.Before(t0.Add(-2*time.Minute)) || tm.After(seen.Add(time.Minute)) {
			o.failf("log line time %q, it is %v: %s", ts, seen, trunc(l.raw, 300))
		}
		if l.m["message"] == "TLS handshake error" {
			who := bsrc
			if ne, _ := l.m["netEvt"].(string); strings.Contains(ne, " from 127.0.0.1:") {
				who = "127.0.0.1"
			}
			if l.m["dwnReqRemoteAddr"] != who || lv != "warn" {
				o.failf("failed TLS handshake from %s logged as %s", who, trunc(l.raw, 400))
			}
		}
	}
	if hs != bad {
		o.failf("%d TLS handshakes failed, the log has %d (LOGLEVEL=%s)", bad, hs, c.Level)
	}
	for _, id := range left {
		ms := access[id]
		delete(access, id)
		if n := len(ms); n > 1 || n == 0 && lvl < 3 || n == 1 && (ms[0]["dwnReqPath"] != "/r/left" || ms[0]["dwnReqRemoteAddr"] != src || lvl == 3 && ms[0]["level"] != "warn") {
			o.failf("a client left before it was answered (LOGLEVEL=%s, TLS %q): the access log has %v", c.Level, c.TLS, ms)
			o.Hang = o.Hang || n == 0
		}
		o.item("left"+c.Level+c.TLS+src, true, "left")
	}
	for id, ms := range access {
		if _, ok := want[id]; !ok {
			o.failf("access log has a line for X-Request-Id %q, which no client sent: %v", id, ms[0])
		}
	}
	for id, i := range want {
		x, r := out[i], c.Reqs[i]
		where := fmt.Sprintf("[%s] %s %s (LOGLEVEL=%s, TLS %q)", r.To, x.E.Method, x.E.Target, c.Level, c.TLS)
		o.item(fmt.Sprint(c.Level, c.TLS, src, r), true, "to-"+r.To, "tls-"+c.TLS, fmt.Sprint("level-", lvl))
		st := x.Resp.Status
		ms := access[id]
		n := 1
		if lvl == 3 && st < 400 {
			n = 0
		}
		if len(ms) != n {
			o.failf("%s: %d access log lines, want %d; answered %d", where, len(ms), n, st)
			o.Hang = o.Hang || len(ms) < n
			continue
		}
		debug := strings.EqualFold(firstOf(x.E.hdr("X-Request-Debug")), "true")
		if attempted := len(x.Ups) > 0; attempted {
			if show := lvl == 0 || lvl == 1 && debug; show != (attempts[id] > 0) {
				o.failf("%s: X-Request-Debug %v: %d upstream attempt lines in the log", where, debug, attempts[id])
			}
		}
		if lvl == 0 && r.To == "jwt" && st != 400 {
			checkJwtLine(&o, where, r.Tok, t0.Unix(), st != 401, jwts[id])
		} else if len(jwts[id]) > 0 {
			o.failf("%s: the log has %v", where, jwts[id][0])
		}
		if n == 0 {
			continue
		}
		m := ms[0]
		chk := func(f string, want any) {
			got := m[f]
			if v, ok := got.(float64); ok {
				got = int(v)
			}
			if got != want {
				o.failf("%s: log has %s=%v, want %v; answered %d", where, f, got, want, st)
			}
		}
		chk("dwnResCode", st)
		if st > 399 {
			chk("level", "warn")
			chk("message", "downstream error response served")
			if x.E.Method != "HEAD" && len(x.Resp.Body) > 0 {
				var doc struct{ Message string }
				if b, err := decoded(x.Resp); err == nil && json.Unmarshal(b, &doc) == nil {
					chk("dwnResErrMsg", doc.Message)
				}
			}
		} else {
			chk("level", "info")
			chk("message", "downstream response served")
		}
		path, _, _ := strings.Cut(x.E.Target, "?")
		chk("dwnReqPath", path)
		chk("dwnReqMethod", strings.ToUpper(x.E.Method))
		chk("dwnReqRemoteAddr", src)
		ua := firstOf(x.E.hdr("User-Agent"))
		if ua == "" {
			ua = "unknown"
		}
		if c.TLS != "h2" || firstOf(x.E.hdr("User-Agent")) != "" {
			chk("dwnReqUserAgent", ua)
		}
		ver := "1.1"
		if c.TLS == "h2" {
			ver = "2.0"
		} else if x.E.Proto != "" {
			ver = "1.0"
		}
		chk("dwnHttpVer", ver)
		switch c.TLS {
		case "":
			if m["dwnTlsVer"] != nil {
				o.failf("%s: log has dwnTlsVer=%v in HTTP mode", where, m["dwnTlsVer"])
			}
		case "12":
			chk("dwnTlsVer", "TLS1.2")
		default:
			chk("dwnTlsVer", "TLS1.3")
		}
		if sv := strings.Fields(x.Resp.Hdr.Get("Server")); len(sv) == 3 {
			chk("srvId", sv[2])
		}
		if x.E.Method != "HEAD" && len(x.Resp.Body) > 0 && r.To != "up4" {
			ce := x.Resp.Hdr.Get("Content-Encoding")
			if ce == "" {
				ce = "identity"
			}
			chk("dwnResContentEnc", ce)
		}
		minUs := 0
		if len(x.Ups) > 0 {
			minUs = x.E.Ups[0].Delay * 1000
			k := len(x.Ups)
			last := x.Ups[k-1]
			chk("upAtmpt", fmt.Sprintf("%d/%d", k, c.Max))
			chk("upAtmptResCode", x.E.Ups[min(k, len(x.E.Ups))-1].Status)
			lab, up := "default", 0
			if r.To == "lab" {
				lab, up = "blue", 1
			}
			chk("upLabel", lab)
			chk("upReqURI", fmt.Sprintf("http://127.0.0.1:%d%s", env.hub().ports[up], last.URI))
			if e, ok := m["upAtmptElapsedMicros"].(float64); !ok || int(e) < minUs || e > float64(seen.Sub(t0).Microseconds()) {
				o.failf("%s: log has upAtmptElapsedMicros=%v, the upstream took at least %dus and everything together %dus", where, m["upAtmptElapsedMicros"], minUs, seen.Sub(t0).Microseconds())
			}
		} else if m["upReqURI"] != nil {
			o.failf("%s: log names upstream %v, which was never called", where, m["upReqURI"])
		}
		if e, ok := m["dwnElapsedMicros"].(float64); !ok || int(e) < minUs || e > float64(seen.Sub(t0).Microseconds()) {
			o.failf("%s: log has dwnElapsedMicros=%v, the upstream took at least %dus and everything together %dus", where, m["dwnElapsedMicros"], minUs, seen.Sub(t0).Microseconds())
		}
	}
	finish(env, j, &o)
	return
}

// at TRACE a line tells what became of the token and which dates it claims
func checkJwtLine(o *Outcome, where string, k *LogTok, now int64, passed bool, ls []map[string]any) {
	if len(ls) != 1 {
		o.failf("%s: %d jwt lines in the log, want 1", where, len(ls))
		return
	}
	m := ls[0]
	if v := m["message"] == "jwt token validated"; v != passed {
		o.failf("%s: token accepted: %v, the log has %v", where, passed, m)
	}
	if k == nil || k.Key != 0 {
		return
	}
	for n, v := range map[string]*int64{"Iat": k.Iat, "Nbf": k.Nbf, "Exp": k.Exp} {
		if v == nil {
			if m["jwtClaims"+n] != false || m["jwt"+n+"Unix"] != nil {
				o.failf("%s: the token has no %s claim, the log has %v", where, n, m)
			}
			continue
		}
		if u, _ := m["jwt"+n+"Unix"].(float64); m["jwtClaims"+n] != true || int64(u) != now+*v {
			o.failf("%s: the token claims %s %d, the log has %v", where, n, now+*v, m)
		}
		for _, z := range []string{"UtcIso", "LclIso"} {
			iso, _ := m["jwt"+n+z].(string)
			if tm, err := time.Parse(time.RFC3339, iso); err != nil || tm.Unix() != now+*v || z == "UtcIso" && !strings.HasSuffix(iso, "Z") {
				o.failf("%s: the token claims %s %v, the log has %s %q", where, n, time.Unix(now+*v, 0).UTC(), z, iso)
			}
		}
	}
}

func firstOf(s []string) string {
	if len(s) > 0 {
		return s[0]
	}
	return ""
}

func init() {
	register(&Prop{ID: "P20", Gen: genLogCase, New: func() any { return &LogCase{} }, Run: runLogCase, NeedBB: true, NeedIP: true, Race: true, Quick: 140, Shards: 6,
		Rule: "A case is a proxy booted at a generated LOGLEVEL in HTTP or TLS mode (1.2, 1.3, h2), up to 30 requests of 15 kinds from a generated loopback address, clients that leave early, failed TLS handshakes, and up to 40 generated client addresses. Each request must have exactly the access log line the level allows, as valid JSON, with every field compared to what client and upstream saw; at TRACE also the lines about tokens and their dates. No line may contain a token's signature, the jwt secret or the TLS key. Non-trivial: all."})
}
