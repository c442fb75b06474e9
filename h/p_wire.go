package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// ---- P30: whatever upstreams send, clients get one well-formed answer ----

type HostileCase struct {
	Attempts int
	Par      int
	TLSLevel string // LOGLEVEL
	Extra    bool   // a further response may follow one; Go's transport may take it for the answer to a request that just reuses the connection
	Reqs     []HostileReq
}
type HostileReq struct {
	E    Exch
	N    uint32 // marks what this request's upstream sends
	Form string
}

var hostStatus = []string{"200", "200", "200", "200", "200", "201", "204", "304", "206", "302", "404", "500", "100", "101", "102", "103", "199", "099", "000", "001", "010", "600", "700", "999", "1000", "20", "2", "-20", "abc", "", "2 0", "0x1", "200200", "２００"}
var hostProto = []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/1.0", "HTTP/2.0", "HTTP/0.9", "http/1.1", "HTTP/1.1x", "HTTP/1", "ICY", "HTTP/99999999999999999999.1"}
var hostHdr = []string{"Content-Length: -1", "Content-Length: 5", "Content-Length: 5, 5", "Content-Length: 5, 6", "Content-Length: 99999999999", "Content-Length: 4611686018427387904", "Content-Length: 9223372036854775807", "Content-Length: 9223372036854775296", "Content-Length: 99999999999999999999", "Content-Length: +5", "Content-Length: 0x5", "Content-Length: ", "Content-Length: 5 ", "content-length: 3",
	"Transfer-Encoding: chunked", "Transfer-Encoding: identity", "Transfer-Encoding: gzip, chunked", "Transfer-Encoding: chunked, chunked", "Transfer-Encoding: xchunked", "transfer-encoding: Chunked", "Transfer-Encoding : chunked", "Transfer-Encoding:\x0bchunked",
	"Connection: close", "Connection: keep-alive", "Connection: upgrade", "Upgrade: websocket", "Connection: X-Foo", "Keep-Alive: timeout=0", "Trailer: X-T", "Trailer: Content-Length", "Te: trailers", "Proxy-Connection: close",
	"Content-Encoding: gzip", "Content-Encoding: gzip, gzip", "Content-Encoding: ", "Content-Encoding: br", "Content-Encoding: GZIP", "Content-Encoding: identity", "Content-Encoding: x-gzip", "Content-Encoding: deflate",
	"NoColonHere", ": empty", "X Space: 1", "X-Null: a\x00b", "X-Fold: a\r\n b", " Leading: 1", "X-Bare: a\nX-Inner: b", "X-CR: a\rb", "\x7fX: 1", "X-\xff: 1", "Ünï: 1", "X-Long: @LONG@", "X-Obs: \xff\xfe\x80", "X-Tab:\t\tv\t",
	"Set-Cookie: a=b", "Set-Cookie: ", "Date: never", "Server: x", "Location: %zz", "Location: ", "Location: http://[::1", "X-Request-Id: theirs", "Strict-Transport-Security: max-age=0", "Content-Type: ", "Content-Type: text/html; charset=\xff", "Content-Range: x", "Retry-After: -5", "Alt-Svc: h3=\":443\"", "Http2-Settings: AAMAAABkAARAAAAAAAIAAAAA"}

var mildNames = []string{"Content-Type", "Content-Type", "ETag", "Last-Modified", "Expires", "Cache-Control", "Vary", "Link", "Age", "Allow", "Accept-Ranges", "Www-Authenticate", "Content-Disposition", "Content-Language", "Content-Location", "Via", "Refresh", "Set-Cookie", "Location", "Retry-After", "Server", "Date", "Content-Encoding", "Access-Control-Allow-Origin", "Pragma", "Warning", "X-Forwarded-For", "X-Request-Id", "X-Request-Debug", "Accept-Encoding", "Authorization", "Strict-Transport-Security", "X-Any"}
var mildValues = []string{"", "/", ";", ",", "=", "x", "0", "-1", "a/b/c", ";;;", "text", "text/", "/html", "\"", "\"unclosed", "q=", "max-age=", "max-age=x", "max-age=-1", "99999999999999999999999", "%zz", "%", "a=b; Expires=never", "é", "gzip", "gzip;q=x", "charset=", "text/html;", "text/html;charset", "text/html; charset=\"", "*", "W/", "[", "(", "{}", "a b c", "Basic", "Bearer", "Bearer a.b.c", "http://", "://x", "\\", "%s%d%n", "nil", "null", "true", "é/ü; ñ", "\t\tx"}

// genMild is a well-formed response whose headers hold unusual things.
func genMild(t *rapid.T, n uint32) ([]byte, string) {
	var b bytes.Buffer
	st := rapid.SampledFrom([]int{200, 200, 200, 201, 204, 206, 302, 304, 400, 404, 500}).Draw(t, "mst")
	fmt.Fprintf(&b, "HTTP/1.1 %d X\r\n", st)
	for i := intR(t, "nmh", 1, 5); i > 0; i-- {
		fmt.Fprintf(&b, "%s: %s\r\n", rapid.SampledFrom(mildNames).Draw(t, "mn"), rapid.SampledFrom(mildValues).Draw(t, "mv"))
	}
	body := []byte(strings.Repeat(fmt.Sprintf("mark-%010d.", n), intR(t, "mmark", 0, 40)))
	if st == 204 || st == 304 {
		body = nil
	}
	kind := rapid.SampledFrom([]string{"cl", "cl", "gz", "chunked"}).Draw(t, "mbody")
	if kind == "gz" && len(body) > 0 {
		body = gz(body)
		b.WriteString("Content-Encoding: gzip\r\n")
	}
	switch {
	case st == 204 || st == 304:
		b.WriteString("\r\n")
	case kind == "chunked":
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		writeChunks(&b, body, 50)
	default:
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(body), body)
	}
	return b.Bytes(), fmt.Sprintf("mild/%s/%d", kind, st)
}

func genHostile(t *rapid.T, n uint32, extra bool) ([]byte, string) {
	var b bytes.Buffer
	form := "grammar"
	if chance(t, "purebytes", 7) {
		return rapid.SliceOfN(rapid.Byte(), 1, 400).Draw(t, "bytes"), "bytes"
	}
	nl := "\r\n"
	if chance(t, "lf", 8) {
		nl = "\n"
	}
	if chance(t, "interim", 15) {
		for i := intR(t, "ninterim", 1, 8); i > 0; i-- {
			b.WriteString("HTTP/1.1 " + rapid.SampledFrom([]string{"100 Continue", "102 Processing", "103 Early Hints", "199 X"}).Draw(t, "interimv") + nl + "Link: </x>" + nl + nl)
		}
		form = "interim"
	}
	st := rapid.SampledFrom(hostStatus).Draw(t, "hst")
	fmt.Fprintf(&b, "%s%s%s", rapid.SampledFrom(hostProto).Draw(t, "hproto"), rapid.SampledFrom([]string{" ", " ", " ", " ", " ", " ", "  ", "\t", ""}).Draw(t, "hsp"), st)
	b.WriteString(rapid.SampledFrom([]string{" OK", " OK", " OK", "", " ", " Ünï", " \x00", " " + strings.Repeat("r", 5000)}).Draw(t, "hreason") + nl)
	for i := intR(t, "nhh", 0, 6); i > 0; i-- {
		h := rapid.SampledFrom(hostHdr).Draw(t, "hh")
		if i := strings.Index(h, "@LONG@"); i >= 0 {
			h = h[:i] + strings.Repeat("L", rapid.SampledFrom([]int{4095, 65536, 300000, 1100000}).Draw(t, "hlong"))
		}
		b.WriteString(h + nl)
	}
	mark := fmt.Sprintf("mark-%010d.", n)
	body := strings.Repeat(mark, intR(t, "nmark", 0, 40))
	kind := rapid.SampledFrom([]string{"cl", "cl", "cl", "none", "chunked", "badchunk", "short", "gz", "gzcut"}).Draw(t, "hbody")
	bits := []string{"\r\n", "\n", "\r", "\x00", " ", ":", "\r\n\r\n", "Content-Length: 4\r\n", "Transfer-Encoding: chunked\r\n", "é"}
	if extra {
		bits = append(bits, "HTTP/1.1 200 OK\r\n")
	}
	if kind == "gz" || kind == "gzcut" {
		z := string(gz([]byte(body)))
		if kind == "gzcut" {
			z = z[:intR(t, "gzcutat", 0, len(z))]
		}
		body = z
		b.WriteString("Content-Encoding: gzip" + nl)
	}
	switch kind {
	case "none":
		b.WriteString(nl + body)
	case "chunked", "badchunk":
		b.WriteString("Transfer-Encoding: chunked" + nl + nl)
		var c bytes.Buffer
		writeChunks(&c, []byte(body), intR(t, "hchunk", 1, 50))
		cb := c.Bytes()
		if kind == "badchunk" {
			cb = mutate(cb, genMuts(t, 1, 3, []string{"\r\n", "\n", "0\r\n\r\n", "ffffffffffffffff\r\n", "-1\r\n", ";ext=\"x\"\r\n", "zz", " ", "0\r\nX-Trailer: 1\r\nContent-Length: 7\r\n\r\n"}))
		}
		b.Write(cb)
	case "short":
		fmt.Fprintf(&b, "Content-Length: %d%s%s%s", len(body)+intR(t, "hshort", 1, 1000), nl, nl, body)
	default:
		fmt.Fprintf(&b, "Content-Length: %d%s%s%s", len(body), nl, nl, body)
	}
	if extra && chance(t, "extra", 40) {
		x := fmt.Sprintf("mark-%010d.after", n)
		fmt.Fprintf(&b, "HTTP/1.1 200 OK\r\nX-After: %s\r\nContent-Length: %d\r\n\r\n%s", x, len(x), x)
		form += "-extra"
	}
	raw := b.Bytes()
	if chance(t, "hmut", 25) {
		raw = mutate(raw, genMuts(t, 1, 4, bits))
		form += "-mutated"
	}
	if len(raw) == 0 {
		raw = []byte("\n")
	}
	return raw, form + "/" + kind + "/" + trunc(st, 3)
}

func genMuts(t *rapid.T, lo, hi int, bits []string) (ms []Mut) {
	for i := intR(t, "nmut", lo, hi); i > 0; i-- {
		mu := Mut{Op: rapid.SampledFrom([]string{"flip", "del", "dup", "ins", "ins", "trunc"}).Draw(t, "mop"), Pos: rapid.IntRange(0, 999).Draw(t, "mpos")}
		switch mu.Op {
		case "ins":
			mu.Arg = []byte(rapid.SampledFrom(bits).Draw(t, "mbit"))
		case "flip":
			mu.Arg = []byte{rapid.Byte().Draw(t, "mb")}
		default:
			mu.Arg = []byte{byte(rapid.IntRange(1, 40).Draw(t, "mlen"))}
		}
		ms = append(ms, mu)
	}
	return
}

func mutate(b []byte, ms []Mut) []byte { return RawMsg{Raw: b, Muts: ms}.bytes("") }

func genHostileCase(t *rapid.T) any {
	c := &HostileCase{Attempts: intR(t, "attempts", 1, 3), Par: rapid.SampledFrom([]int{4, 16, 40}).Draw(t, "par"), TLSLevel: rapid.SampledFrom([]string{"INFO", "TRACE", "TRACE", "WARN"}).Draw(t, "lvl"), Extra: chance(t, "extras", 25)}
	c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) HostileReq {
		r := HostileReq{N: uint32(rapid.IntRange(1, 1<<30).Draw(t, "n"))}
		r.E = Exch{Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE"}).Draw(t, "hm"), Target: "/x"}
		if inList(r.E.Method, "POST", "PUT") {
			r.E.Framing, r.E.Body = "cl", genBody(t, 0, "text")
		}
		if chance(t, "ae", 50) {
			r.E.Hdrs = append(r.E.Hdrs, HV{"Accept-Encoding", rapid.SampledFrom(aeChoices).Draw(t, "aev")})
		}
		if chance(t, "h10", 8) {
			r.E.Proto = "HTTP/1.0"
		}
		if chance(t, "dbg", 8) {
			r.E.Hdrs = append(r.E.Hdrs, HV{"X-Request-Debug", "true"})
		}
		var raw []byte
		var form string
		if chance(t, "mild", 35) {
			raw, form = genMild(t, r.N)
		} else {
			raw, form = genHostile(t, r.N, c.Extra)
		}
		r.Form = form
		keep := chance(t, "keep", 50)
		// what is not answered in time costs seconds: the last of several attempts decides
		r.E.Ups = []UpResp{{Raw: raw, Keep: keep}}
		return r
	}), 1, 40).Draw(t, "hreqs")
	return c
}

func runHostileCase(env *Env, ci any) (o Outcome) {
	c := ci.(*HostileCase)
	cfg := Cfg{Routes: []CfgRoute{{Path: "/", Resource: "r"}}, Resources: map[string][]CfgRes{"r": {{Up: 0}}},
		Up: map[string]any{"maxAttempts": c.Attempts, "readTimeoutSeconds": 1}, Down: map[string]any{"roundTripTimeoutSeconds": 20}}
	j := startOrFail(env, cfg, startOpt{env: []string{"LOGLEVEL=" + c.TLSLevel}}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	xs := make([]Exch, len(c.Reqs))
	for i, r := range c.Reqs {
		xs[i] = r.E
	}
	check := func(x XR, where string) {
		d := x.Resp
		if d.Status < 200 || d.Status > 599 {
			o.failf("%s: the client got %s", where, d.brief())
			return
		}
		if s := d.Hdr["Server"]; len(s) != 1 || !strings.HasPrefix(s[0], "j8a ") {
			o.failf("%s: Server header %q", where, s)
		}
		if s := d.Hdr["X-Request-Id"]; len(s) != 1 || s[0] == "" || s[0] == "theirs" {
			o.failf("%s: X-Request-Id %q", where, s)
		}
		if (d.Status == 502 || d.Status == 504) && x.E.Method != "HEAD" {
			b, err := decoded(d)
			var doc map[string]any
			if err == nil {
				err = json.Unmarshal(b, &doc)
			}
			if err != nil || doc["Code"] != float64(d.Status) {
				o.failf("%s: %d with body %s (%v)", where, d.Status, trunc(string(b), 200), err)
			}
		}
	}
	res := env.runBatch(j, xs, c.Par, true)
	for i, x := range res {
		r := c.Reqs[i]
		where := fmt.Sprintf("%s, upstream sent %q", r.E.Method, trunc(string(r.E.Ups[0].Raw), 300))
		o.item(fmt.Sprintf("%x", r.E.Ups[0].Raw), true, "form-"+strings.Split(r.Form, "/")[0], fmt.Sprintf("answered-%d", x.Resp.Status))
		if x.Resp.Err != nil {
			o.failf("%s: the client got no valid response: %v", where, x.Resp.Err)
			o.Hang = o.Hang || x.Resp.Hang
			continue
		}
		check(x, where)
		max := 1
		if r.E.Method != "POST" {
			max = c.Attempts
		}
		// idempotent requests on a reused connection that broke are sent again by Go's transport, no attempt of j8a
		if len(x.Ups) > 2*max || len(x.Ups) == 0 && x.Resp.Status < 500 && !c.Extra {
			o.failf("%s: upstream was called %d times, maxAttempts is %d", where, len(x.Ups), c.Attempts)
		}
		text := fmt.Sprint(x.Resp.Hdr) + string(x.Resp.Body)
		if b, err := decoded(x.Resp); err == nil {
			text += string(b)
		}
		for _, other := range c.Reqs {
			if !c.Extra && other.N != r.N && strings.Contains(text, fmt.Sprintf("mark-%010d.", other.N)) {
				o.failf("%s: the client got bytes of another upstream response: %s", where, x.Resp.brief())
			}
		}
	}
	if o.Viol == "" && j.checkAlive(&o) {
		ok := Exch{Method: "GET", Target: "/probe", Ups: []UpResp{{Status: 200, Hdrs: []HV{{"X-Probe", "1"}}, Body: BodySpec{"text", 700, 7}}}}
		// connections left with unread bytes are given up once the transport sees them idle
		for round := 1; ; round++ {
			time.Sleep(50 * time.Millisecond)
			p := Outcome{}
			for _, x := range env.runBatch(j, []Exch{ok, ok, ok, ok, ok, ok}, 3, true) {
				if noResp(&p, x) {
					break
				}
				if len(x.Ups) != 1 {
					p.failf("after hostile responses a normal request reached upstream %d times", len(x.Ups))
				}
				checkRespFidelity(&p, x, ok.Ups[0])
			}
			if p.Viol == "" {
				break
			}
			if round == 5 {
				o.Viol, o.Hang = p.Viol, p.Hang
				break
			}
		}
	}
	if s := j.stderr.String(); strings.Contains(s, "panic serving") || strings.Contains(s, "runtime error") {
		i := max(0, strings.Index(s, "panic serving")-100)
		o.failf("an upstream response made a handler panic: %s", trunc(s[i:], 1200))
	}
	finish(env, j, &o)
	return
}

// ---- P31: message boundaries are kept on every connection ----

type BoundCase struct {
	MaxBody  int
	Attempts int
	Conns    []BoundConn
}

func (c *BoundCase) limit() int {
	if c.MaxBody > 0 {
		return c.MaxBody
	}
	return 2 << 20
}

type BoundConn struct {
	Reqs  []Exch
	Split []int // sizes of the segments the bytes are sent in, repeating; empty: all at once
	Pause int   // milliseconds between the first segments
}

func genBoundCase(t *rapid.T) any {
	c := &BoundCase{MaxBody: rapid.SampledFrom([]int{0, 100, 1000, 300000}).Draw(t, "maxbody"), Attempts: intR(t, "attempts", 1, 2)}
	c.Conns = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) BoundConn {
		b := BoundConn{}
		if chance(t, "split", 60) {
			b.Split = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 7, 16, 50, 100, 333, 1000, 5000}), 1, 6).Draw(t, "splits")
			b.Pause = rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, "pause")
		}
		closers := chance(t, "closers", 35) // requests that end the connection, with others behind them
		b.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Exch {
			e := Exch{Method: rapid.SampledFrom([]string{"GET", "GET", "HEAD", "POST", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "BREW", "PATCH", "get"}).Draw(t, "bm"),
				Target: rapid.SampledFrom([]string{"/r", "/r", "/r", "/r/x?y=z", "/r", "/hs", "/about", "/nope", "/un"}).Draw(t, "bt")}
			if chance(t, "bbody", 55) && e.Method != "TRACE" && e.Method != "HEAD" {
				e.Body = BodySpec{rapid.SampledFrom([]string{"smugreq", "smugreq", "smugresp", "text", "rand"}).Draw(t, "bk"), genSize(t, 2), uint32(intR(t, "bseed", 0, 1000))}
				if !closers {
					e.Body.Size = min(e.Body.Size, c.limit())
				}
				e.Framing = rapid.SampledFrom([]string{"cl", "chunked"}).Draw(t, "bf")
				e.Chunk = rapid.SampledFrom([]int{1, 7, 100, 1000, 4096}).Draw(t, "chunk")
			} else if inList(e.Method, "POST", "PUT") {
				e.Framing = "cl"
			}
			if e.Framing != "" && chance(t, "expect", 8) {
				e.Hdrs = append(e.Hdrs, HV{"Expect", "100-continue"})
			}
			if chance(t, "bclose", 6) && closers {
				e.Hdrs = append(e.Hdrs, HV{"Connection", "close"})
			}
			if e.Framing != "chunked" && chance(t, "b10", 8) && closers {
				e.Proto = "HTTP/1.0"
				if chance(t, "b10ka", 60) {
					e.Hdrs = append(e.Hdrs, HV{"Connection", "keep-alive"})
				}
			}
			if chance(t, "ae", 40) {
				e.Hdrs = append(e.Hdrs, HV{"Accept-Encoding", rapid.SampledFrom([]string{"gzip", "identity", "br", "gzip;q=0"}).Draw(t, "aev")})
			}
			u := UpResp{Status: rapid.SampledFrom([]int{200, 200, 200, 201, 204, 206, 302, 304, 400, 404, 500, 503}).Draw(t, "bst"), Framing: rapid.SampledFrom([]string{"cl", "cl", "chunked", "eof"}).Draw(t, "buf")}
			u.Body = BodySpec{rapid.SampledFrom([]string{"smugresp", "smugresp", "smugreq", "text", "rand"}).Draw(t, "ubk"), genSize(t, 2), uint32(intR(t, "ubseed", 0, 1000))}
			if u.Status == 204 || u.Status == 304 {
				u.Body = BodySpec{}
			}
			if chance(t, "bgz", 20) && u.Body.Size > 0 {
				u.Enc = "gzip"
			}
			if chance(t, "bu10", 12) && closers {
				u.Proto = "HTTP/1.0"
			}
			if !closers && u.Framing == "eof" {
				u.Framing = "cl"
			}
			e.Ups = []UpResp{u}
			return e
		}), 2, 16).Draw(t, "breqs")
		return b
	}), 1, 6).Draw(t, "conns")
	return c
}

func runBoundCase(env *Env, ci any) (o Outcome) {
	c := ci.(*BoundCase)
	cfg := Cfg{Routes: []CfgRoute{{Path: "/r", Resource: "r"}, {Path: "/hs", Resource: "r", Jwt: "hs"}, {Path: "/about", Resource: "about"}, {Path: "/un", Resource: "nosuch"}},
		Resources: map[string][]CfgRes{"r": {{Up: 0}}}, Jwt: map[string]any{"hs": map[string]any{"alg": "HS256", "key": "s3cr3t-s3cr3t-s3cr3t-s3cr3t-s3cr3t"}},
		Up: map[string]any{"maxAttempts": c.Attempts}}
	limit := c.limit()
	if c.MaxBody > 0 {
		cfg.Down = map[string]any{"maxBodyBytes": c.MaxBody}
	}
	j := startOrFail(env, cfg, startOpt{}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	var mu sync.Mutex
	var wg sync.WaitGroup
	for ci, bc := range c.Conns {
		wg.Add(1)
		go func(ci int, bc BoundConn) {
			defer wg.Done()
			v, hang, items := playBound(env, j, bc, limit, c.Attempts)
			mu.Lock()
			defer mu.Unlock()
			o.Items = append(o.Items, items...)
			if v != "" {
				o.failf("connection %d: %s", ci, v)
				o.Hang = o.Hang || hang
			}
		}(ci, bc)
	}
	wg.Wait()
	finish(env, j, &o)
	return
}

// closesEarly tells whether the connection may be closed by a request that has others, or its own unread body, behind it.
func closesEarly(rs []Exch, limit int) bool {
	for i, e := range rs {
		last := i == len(rs)-1
		if e.Body.Size > limit || !last && (e.Proto != "" || e.hdr("Connection") != nil || e.Ups[0].Proto != "" || e.Ups[0].Framing == "eof") {
			return true
		}
	}
	return false
}

func playBound(env *Env, j *J8a, bc BoundConn, limit, attempts int) (viol string, hang bool, items []Item) {
	hub := env.hub()
	var wire bytes.Buffer
	ids := make([]string, len(bc.Reqs))
	for i, e := range bc.Reqs {
		ids[i] = hub.newID()
		hub.register(ids[i], e.Ups)
		e.Hdrs = append(append([]HV{}, e.Hdrs...), HV{"X-Request-Id", ids[i] + "-rid"})
		wire.Write(e.raw(ids[i], "j8a.test"))
	}
	ups := make([][]UpReq, len(ids))
	defer func() {
		for _, id := range ids {
			hub.take(id)
		}
	}()
	cn, err := dial(j.Addr)
	if err != nil {
		return "dial: " + err.Error(), false, nil
	}
	defer cn.c.Close()
	cn.c.SetDeadline(time.Now().Add(clientDeadline))
	wdone := make(chan bool)
	go func() {
		defer close(wdone)
		rest := wire.Bytes()
		for i := 0; len(rest) > 0; i++ {
			n := len(rest)
			if len(bc.Split) > 0 && i < 400 {
				n = min(n, bc.Split[i%len(bc.Split)])
			}
			if _, err := cn.c.Write(rest[:n]); err != nil {
				return
			}
			rest = rest[n:]
			if bc.Pause > 0 && i < 40 {
				time.Sleep(time.Duration(bc.Pause) * time.Millisecond)
			}
		}
	}()
	announced, lost := false, false
	done := 0
	var xs []XR
	for i, e := range bc.Reqs {
		m := strings.ToUpper(e.Method)
		d := cn.read(m)
		where := fmt.Sprintf("request %d of %d (%s %s, body %d %s), after %d answers", i+1, len(bc.Reqs), e.Method, e.Target, e.Body.Size, e.Framing, done)
		if d.Err != nil {
			if !d.Hang && strings.Contains(d.Err.Error(), "connection reset") && closesEarly(bc.Reqs[i:], limit) {
				// the connection ends with unread requests behind the closing one: a reset takes answers along that are on their way
				lost = true
				break
			}
			return fmt.Sprintf("%s: no valid response: %v", where, d.Err), d.Hang, items
		}
		if s := d.Hdr["X-Request-Id"]; len(s) != 1 || s[0] != ids[i]+"-rid" {
			return fmt.Sprintf("%s: the response is for request id %q, it should be for %q: %s", where, s, ids[i]+"-rid", d.brief()), false, items
		}
		done++
		items = append(items, Item{fmt.Sprint(e), i > 0 || e.Body.Size > 0, []string{fmt.Sprintf("pos-%d", min(i, 9)), fmt.Sprintf("status-%d", d.Status), "kind-" + e.Body.Kind}})
		xs = append(xs, XR{E: e, ID: ids[i], Resp: d})
		if d.Close {
			announced = true
			break
		}
	}
	// nothing but the answers may follow
	if announced || lost {
		cn.c.SetReadDeadline(time.Now().Add(20 * time.Second))
	} else {
		cn.c.SetReadDeadline(time.Now().Add(30 * time.Millisecond))
	}
	extra, err := io.ReadAll(io.LimitReader(cn.br, 300))
	if len(extra) > 0 && !lost {
		return fmt.Sprintf("after %d answers to %d requests (the last announced closing: %v) the proxy sent %q", done, len(bc.Reqs), announced, extra), false, items
	}
	if ne, ok := err.(net.Error); ok && ne.Timeout() && announced {
		return fmt.Sprintf("after %d answers the proxy announced closing the connection and did not", done), true, items
	}
	cn.c.Close()
	<-wdone
	for i := range ids {
		ups[i] = hub.take(ids[i])
	}
	for i := range ups {
		if i >= done && len(ups[i]) > 0 && !lost {
			return fmt.Sprintf("request %d reached upstream although the connection ended with the answer to request %d", i+1, done), false, items
		}
	}
	o := Outcome{}
	var last time.Time
	for i, x := range xs {
		x.Ups = ups[i]
		e, d, up := x.E, x.Resp, x.E.Ups[0]
		where := fmt.Sprintf("request %d of %d: %s %s, body %d %s", i+1, len(bc.Reqs), e.Method, e.Target, e.Body.Size, e.Framing)
		m := strings.ToUpper(e.Method)
		// TRACE and HEAD requests carry no bodies here, see the generator
		want, calls := up.Status, 1
		switch {
		case inList(m, "BREW", "PATCH"):
			want, calls = 400, 0
			if e.Body.Size > limit {
				want = 413
			}
		case e.Body.Size > limit:
			want, calls = 413, 0
		case e.Target == "/nope":
			want, calls = 404, 0
		case e.Target == "/hs":
			want, calls = 401, 0
		case e.Target == "/un":
			want, calls = 503, 0
		case e.Target == "/about":
			want, calls = 200, 0
		case up.Status >= 500:
			want = 502
			if m != "POST" {
				calls = attempts
			}
		}
		if d.Status != want {
			o.failf("%s: answered %s, want %d", where, d.brief(), want)
		}
		if len(x.Ups) != calls {
			o.failf("%s: reached upstream %d times, want %d", where, len(x.Ups), calls)
		}
		for _, u := range x.Ups {
			if u.At.Before(last) {
				o.failf("%s: reached upstream before the request ahead of it", where)
			}
			last = u.At
			if !bytes.Equal(u.Body, e.Body.bytes()) || u.URI != e.Target || u.Method != m {
				o.failf("%s: upstream saw %s %s with a body of %d bytes", where, u.Method, u.URI, len(u.Body))
			}
		}
		if calls == 1 && want < 400 {
			x.E.Method = m
			checkRespFidelity(&o, x, up)
		}
	}
	return o.Viol, false, items
}

func init() {
	register(&Prop{ID: "P30", Gen: genHostileCase, New: func() any { return &HostileCase{} }, Run: runHostileCase, NeedBB: true, Quick: 60, Shards: 8,
		Rule: "A case is a booted proxy plus 1-40 requests whose upstream answers with bytes generated from a hostile grammar (34 status codes, 14 protocol names, 70 odd header lines, declared and actual lengths that differ, broken chunking, cut gzip, interim responses, a second response behind the first), with 0-4 byte-level mutations or random bytes, or is well-formed with unusual values in 31 headers, and closes or keeps the connection. Every client must get one well-formed response with a status of 200-599 that holds nothing of other exchanges, no handler may panic, and requests sent afterwards must be served normally. Non-trivial: all."})
	register(&Prop{ID: "P31", Gen: genBoundCase, New: func() any { return &BoundCase{} }, Run: runBoundCase, NeedBB: true, Quick: 150, Shards: 6,
		Rule: "A case is a booted proxy plus 1-6 connections on each of which 2-16 requests are sent without waiting for answers, in generated segments: all methods, routes and outcomes mixed, bodies by length or chunks that look like requests or responses themselves, bodies above the limit, Expect, HTTP/1.0, Connection: close, upstream responses of every framing. Answers must come in order, one per request and no more, each for the request id of its request; what is inside bodies never becomes a message. Non-trivial: not the first on its connection, or with a body."})
}
