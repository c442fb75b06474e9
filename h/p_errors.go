package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// ---- P05: JSON error wrapper ----

var serverHdrRe = regexp.MustCompile(`^j8a (.+) ([0-9a-f]{8})$`)

// errShape checks that a response is the proxy's own JSON error with the given status.
func errShape(o *Outcome, where string, e Exch, d DownResp, want int, hsts bool) {
	if d.Status != want {
		o.failf("%s: want the proxy's own %d, got %s", where, want, d.brief())
		return
	}
	if ct := d.Hdr["Content-Type"]; len(ct) != 1 || !strings.HasPrefix(ct[0], "application/json") {
		o.failf("%s: error response Content-Type %q", where, ct)
	}
	sv := d.Hdr["Server"]
	var m []string
	if len(sv) == 1 {
		m = serverHdrRe.FindStringSubmatch(sv[0])
	}
	if m == nil {
		o.failf("%s: error response Server header %q", where, sv)
		return
	}
	if id := d.Hdr["X-Request-Id"]; len(id) != 1 || id[0] == "" {
		o.failf("%s: error response X-Request-Id %q", where, id)
	}
	if h := d.Hdr["Strict-Transport-Security"]; (len(h) > 0) != hsts {
		o.failf("%s: error response Strict-Transport-Security %q (TLS mode %v)", where, h, hsts)
	}
	if e.Method == "HEAD" {
		if len(d.Body) > 0 {
			o.failf("%s: body on a HEAD response", where)
		}
		return
	}
	ok, _ := gzipAcceptable(e.hdr("Accept-Encoding"))
	ce := strings.Join(d.Hdr["Content-Encoding"], "|")
	switch ce {
	case "gzip":
		if !ok {
			o.failf("%s: gzipped error for a client that does not accept gzip", where)
		}
	case "identity", "":
	default:
		o.failf("%s: error response Content-Encoding %q", where, ce)
	}
	b, err := decoded(d)
	if err != nil {
		o.failf("%s: %v", where, err)
		return
	}
	var doc map[string]any
	if err := json.Unmarshal(b, &doc); err != nil {
		o.failf("%s: error body is not JSON (%v): %q", where, err, trunc(string(b), 200))
		return
	}
	if c, _ := doc["Code"].(float64); int(c) != want {
		o.failf("%s: error body Code %v, status %d", where, doc["Code"], want)
	}
	if s, _ := doc["Message"].(string); s == "" || s == "none" {
		o.failf("%s: error body Message %q", where, doc["Message"])
	}
	if s, _ := doc["j8a"].(string); s == "" {
		o.failf("%s: error body lacks j8a: %s", where, trunc(string(b), 200))
	}
	if doc["ServerID"] != m[2] || doc["Version"] != m[1] {
		o.failf("%s: error body names server %v %v, Server header %q", where, doc["Version"], doc["ServerID"], sv)
	}
}

type ErrCase struct {
	Cfg  Cfg
	Reqs []ErrReq
	Par  int
	KA   bool
	Live []string // routes that work
}
type ErrReq struct {
	Kind string
	E    Exch
	Want int
	Ups  int // upstream calls expected
}

func genErrCase(t *rapid.T) any {
	c := &ErrCase{}
	maxBody := rapid.SampledFrom([]int{1, 10, 1000, 65535}).Draw(t, "maxbody")
	attempts := intR(t, "attempts", 1, 3)
	c.Cfg = Cfg{
		Down: map[string]any{"maxBodyBytes": maxBody},
		Up:   map[string]any{"maxAttempts": attempts},
		Routes: []CfgRoute{{Path: "/ok", Resource: "r"}, {Path: "/dead", Resource: "dead"}, {Path: "/badhost", Resource: "badhost"}, {Path: "/nores", Resource: "missing"},
			{Path: "/empty", Resource: "empty"}, {Path: "/nolabel", Resource: "r", Policy: "p"}, {Path: "/nopolicy", Resource: "lab", Policy: "undefined"}, {Path: "/jwt", Resource: "r", Jwt: "j"}},
		Resources: map[string][]CfgRes{"r": {{Up: 0, Labels: []string{"green"}}}, "lab": {{Up: 0, Labels: []string{"green"}}}, "dead": {{Up: -1, Host: "127.0.0.1", Port: 1}}, "empty": {},
			"badhost": {{Up: -1, Host: rapid.SampledFrom([]string{"a b", "%zz", "[::1", "a\"b", "<host>", "x]", "http://localhost", "127.0.0.1:1", ""}).Draw(t, "badhost"), Port: 1}}},
		Policies: map[string][]CfgLW{"p": {{Label: "purple", Weight: 1}}},
		Jwt:      map[string]any{"j": map[string]any{"alg": "HS256", "key": "s3cr3t-s3cr3t-s3cr3t-s3cr3t-s3cr3t"}},
	}
	lo, hi := many(t, 1, 40)
	c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ErrReq {
		r := ErrReq{Kind: rapid.SampledFrom([]string{"404", "404", "400", "413", "413c", "401", "503", "502dead", "502", "up4xx", "up4xx", "up4xx", "ok"}).Draw(t, "kind")}
		r.E.Method = rapid.SampledFrom([]string{"GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "TRACE"}).Draw(t, "method")
		if chance(t, "ae", 60) {
			r.E.Hdrs = append(r.E.Hdrs, HV{"Accept-Encoding", rapid.SampledFrom(aeChoices).Draw(t, "aev")})
		}
		if chance(t, "xrid", 30) {
			r.E.Hdrs = append(r.E.Hdrs, HV{"X-Request-Id", genReqID.Draw(t, "xridv")})
		}
		if chance(t, "http10", 8) {
			r.E.Proto = "HTTP/1.0"
		}
		r.E.Ups = []UpResp{{Status: 200, Body: BodySpec{"text", 10, 1}, Close: true}}
		path := "/ok"
		switch r.Kind {
		case "404":
			path, r.Want = rapid.SampledFrom([]string{"/nope", "/", "/OK", "/x/ok", "/jw", "/o", "/%6fk"}).Draw(t, "p404"), 404
		case "400":
			r.E.Method, r.Want = rapid.SampledFrom([]string{"PATCH", "PROPFIND", "FOO", "LINK", "PURGE", "SEARCH", "X", "GETS", "GE", "COPY"}).Draw(t, "badmethod"), 400
			path = rapid.SampledFrom([]string{"/ok", "/nope", "/jwt"}).Draw(t, "p400")
		case "413", "413c":
			r.E.Method = rapid.SampledFrom([]string{"POST", "PUT", "DELETE", "GET"}).Draw(t, "bm")
			r.E.Body = BodySpec{"text", maxBody + 1 + rapid.SampledFrom([]int{0, 1, 100, 5000}).Draw(t, "over"), 7}
			r.E.Framing, r.Want = "cl", 413
			if r.Kind == "413c" && r.E.Proto == "" {
				r.E.Framing, r.E.Chunk = "chunked", 5000
			}
		case "401":
			path, r.Want = "/jwt", 401
			if chance(t, "tok", 70) {
				r.E.Hdrs = append(r.E.Hdrs, HV{"Authorization", rapid.SampledFrom([]string{"Bearer x", "Bearer a.b.c", "Bearer", "Basic dTpw", "Bearer eyJhbGciOiJub25lIn0.e30.", "Bearer ..", "Bearer eyJhbGciOiJIUzI1NiJ9.e30.AAAA", "Bearer  ", "Bearer {}", "bearer \"\""}).Draw(t, "tokv")})
			}
		case "503":
			path, r.Want = rapid.SampledFrom([]string{"/nores", "/empty", "/nolabel", "/nopolicy"}).Draw(t, "p503"), 503
		case "502dead":
			path, r.Want = rapid.SampledFrom([]string{"/dead", "/badhost"}).Draw(t, "p502"), 502
		case "502":
			r.Want, r.Ups = 502, 1
			if r.E.Method != "POST" {
				r.Ups = attempts
			}
			u := UpResp{Close: true, Body: BodySpec{"text", 30, 2}}
			if chance(t, "f", 50) {
				u.Status, u.Fault = 200, rapid.SampledFrom([]string{"close", "garbage", "half-header"}).Draw(t, "fault")
			} else {
				u.Status = rapid.SampledFrom([]int{500, 501, 502, 503, 504, 505, 507, 511, 520, 598, 599}).Draw(t, "st5")
				if chance(t, "st5any", 30) {
					u.Status = intR(t, "st5anyv", 500, 599)
				}
				u.Enc = rapid.SampledFrom([]string{"", "gzip"}).Draw(t, "e5")
			}
			r.E.Ups = []UpResp{u}
		case "up4xx":
			st := rapid.SampledFrom([]int{400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 420, 421, 422, 423, 424, 425, 426, 428, 429, 430, 431, 444, 449, 450, 451, 460, 499}).Draw(t, "st4")
			if chance(t, "st4any", 30) {
				st = intR(t, "st4anyv", 400, 499)
			}
			r.Want, r.Ups = st, 1
			u := UpResp{Status: st, Hdrs: []HV{{"Content-Type", "text/html"}, {"X-Up", "1"}}, Body: BodySpec{"text", rapid.SampledFrom([]int{0, 0, 1, 2, 50, 20000}).Draw(t, "n4"), 4}, Close: true, Framing: rapid.SampledFrom([]string{"cl", "chunked", "eof"}).Draw(t, "f4")}
			if u.Body.Size > 0 && chance(t, "gz4", 40) {
				u.Enc = "gzip"
			} else if u.Body.Size > 0 && chance(t, "br4", 20) {
				u.Hdrs = append(u.Hdrs, HV{"Content-Encoding", "br"})
			}
			r.E.Ups = []UpResp{u}
		case "ok":
			r.Want, r.Ups = 200, 1
		}
		r.E.Target = path
		if r.Kind != "404" {
			r.E.Target += rapid.SampledFrom([]string{"", "/x", "?a=b", "/y?z"}).Draw(t, "tail")
		}
		if inList(r.E.Method, "POST", "PUT") && r.E.Framing == "" {
			r.E.Framing = "cl"
		}
		r.E.Abs = genAbs(t)
		return r
	}), lo, hi).Draw(t, "reqs")
	c.Par = rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "par")
	c.KA = rapid.Bool().Draw(t, "ka")
	return c
}

func runErrCase(env *Env, ci any) (o Outcome) {
	c := ci.(*ErrCase)
	j := startOrFail(env, c.Cfg, startOpt{}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	var xs []Exch
	for _, r := range c.Reqs {
		xs = append(xs, r.E)
	}
	for i, x := range env.runBatch(j, xs, c.Par, c.KA) {
		r := c.Reqs[i]
		where := fmt.Sprintf("[%s] %s %s", r.Kind, x.E.Method, x.E.Target)
		o.item(fmt.Sprint(r), r.Kind != "ok", "kind-"+r.Kind, fmt.Sprintf("status-%d", r.Want))
		if noResp(&o, x) {
			continue
		}
		if len(x.Ups) != r.Ups {
			o.failf("%s: upstream was called %d times, want %d; %s", where, len(x.Ups), r.Ups, x.Resp.brief())
		}
		if r.Kind == "ok" {
			if x.Resp.Status != 200 {
				o.failf("%s: want upstream's 200, got %s", where, x.Resp.brief())
			}
			continue
		}
		errShape(&o, where, x.E, x.Resp, r.Want, false)
		if id := x.E.hdr("X-Request-Id"); len(id) == 1 && x.Resp.Hdr.Get("X-Request-Id") != id[0] {
			o.failf("%s: X-Request-Id %q came back as %q", where, id[0], x.Resp.Hdr["X-Request-Id"])
		}
	}
	finish(env, j, &o)
	return
}

// ---- P06: retries ----

type RetryCase struct {
	Max  int
	Reqs []Exch
	Par  int
	KA   bool
}

func repeatable(m string) bool {
	return inList(m, "GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE")
}

// upFails: the attempt does not yield a response that may be passed on.
func upFails(u UpResp, method string) bool {
	if u.Fault == "trunc" || u.Fault == "badchunk" {
		return method != "HEAD" || u.Status >= 500
	}
	return u.Fault != "" || u.Status >= 500
}

func genUpAny(t *rapid.T, failPct int) UpResp {
	u := UpResp{Status: 200, Close: true}
	if chance(t, "fail", failPct) {
		switch k := rapid.SampledFrom([]string{"5xx", "5xx", "close", "garbage", "half-header", "trunc", "badchunk"}).Draw(t, "fk"); k {
		case "5xx":
			u.Status = rapid.SampledFrom([]int{500, 501, 502, 503, 504, 505, 511, 599}).Draw(t, "st5")
			if chance(t, "st5any", 30) {
				u.Status = intR(t, "st5anyv", 500, 599)
			}
			u.Body = genBody(t, 0, "text", "rand")
		case "trunc", "badchunk":
			u.Fault = k
			u.Status = rapid.SampledFrom([]int{200, 201, 404}).Draw(t, "fst")
			u.Body = BodySpec{"text", intR(t, "fn", 4, 9000), 9}
			u.Framing = "cl"
			if k == "badchunk" {
				u.Framing = "chunked"
			}
		default:
			u.Fault = k
		}
		return u
	}
	u.Status = rapid.SampledFrom([]int{200, 200, 201, 204, 206, 302, 304, 400, 404, 409, 429}).Draw(t, "stok")
	if chance(t, "stany", 40) {
		u.Status = intR(t, "stanyv", 200, 499)
	}
	if u.Status != 204 && u.Status != 304 {
		u.Body = BodySpec{"text", rapid.SampledFrom([]int{0, 1, 2, 3, 100, 5000}).Draw(t, "okn"), uint32(intR(t, "okseed", 1, 1<<20))}
	}
	u.Hdrs = append(u.Hdrs, HV{"X-Attempt", fmt.Sprint(intR(t, "xa", 0, 1<<20))})
	u.Framing = rapid.SampledFrom([]string{"cl", "chunked", "eof"}).Draw(t, "okf")
	if u.Body.Size > 0 && chance(t, "okgz", 30) {
		u.Enc = "gzip"
	}
	return u
}

func genRetryCase(t *rapid.T) any {
	c := &RetryCase{Max: rapid.SampledFrom([]int{1, 2, 2, 3, 4, 5, 7}).Draw(t, "max")}
	lo, hi := many(t, 1, 30)
	c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Exch {
		e := genReq(t, "/r"+genQuery(t), 1)
		// draw the method again: retries differ between PUT/DELETE (retried) and POST (not)
		e.Ups = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) UpResp { return genUpAny(t, 65) }), 1, 8).Draw(t, "ups")
		return e
	}), lo, hi).Draw(t, "reqs")
	c.Par = rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "par")
	c.KA = rapid.Bool().Draw(t, "ka")
	return c
}

func runRetryCase(env *Env, ci any) (o Outcome) {
	c := ci.(*RetryCase)
	cfg := Cfg{Routes: []CfgRoute{{Path: "/r", Resource: "r"}}, Resources: map[string][]CfgRes{"r": {{Up: 0}}}, Up: map[string]any{"maxAttempts": c.Max}}
	j := startOrFail(env, cfg, startOpt{}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	for _, x := range env.runBatch(j, c.Reqs, c.Par, c.KA) {
		ups := x.E.Ups
		at := func(i int) UpResp {
			if i < len(ups) {
				return ups[i]
			}
			return ups[len(ups)-1]
		}
		limit := 1
		if repeatable(x.E.Method) {
			limit = c.Max
		}
		n, okAt := 0, -1
		for n < limit {
			u := at(n)
			n++
			if !upFails(u, x.E.Method) {
				okAt = n - 1
				break
			}
		}
		where := fmt.Sprintf("%s %s maxAttempts=%d attempts=%v", x.E.Method, x.E.Target, c.Max, upBrief(ups))
		res := "gave-up"
		if okAt == 0 {
			res = "first-try"
		} else if okAt > 0 {
			res = "recovered"
		}
		o.item(fmt.Sprint(c.Max, x.E), upFails(at(0), x.E.Method), res, fmt.Sprintf("attempts-%d", n))
		if noResp(&o, x) {
			continue
		}
		if len(x.Ups) != n {
			o.failf("%s: upstream saw %d attempts, want %d; %s", where, len(x.Ups), n, x.Resp.brief())
			continue
		}
		for i, u := range x.Ups {
			checkUpReq(&o, x.E, x.E.Target, u)
			if i > 0 && (!bytes.Equal(u.Body, x.Ups[0].Body) || u.Hdr.Get("X-Request-Id") != x.Ups[0].Hdr.Get("X-Request-Id") || u.Server != x.Ups[0].Server) {
				o.failf("%s: attempt %d differs from attempt 1", where, i+1)
			}
		}
		if okAt < 0 {
			errShape(&o, where, x.E, x.Resp, 502, false)
			continue
		}
		u := at(okAt)
		if u.Status >= 400 {
			errShape(&o, where, x.E, x.Resp, u.Status, false)
		} else {
			checkRespFidelity(&o, x, u)
		}
	}
	finish(env, j, &o)
	return
}

func upBrief(us []UpResp) (s []string) {
	for _, u := range us {
		if u.Fault != "" {
			s = append(s, u.Fault)
		} else {
			s = append(s, itoa(u.Status))
		}
	}
	return
}

func init() {
	register(&Prop{ID: "P05", Gen: genErrCase, New: func() any { return &ErrCase{} }, Run: runErrCase, NeedBB: true, Quick: 500, Shards: 6,
		Rule: "A case is a booted proxy with working, dead, unmapped, unlabelled and JWT routes plus 1-40 requests that each end in one documented error class (404, 400, 413 by length or by chunks, 401, 503, 502, upstream 4xx) or succeed; one evaluation checks status, upstream call count, headers and the decoded JSON. Non-trivial: every error class (controls that succeed are not counted)."})
	register(&Prop{ID: "P06", Gen: genRetryCase, New: func() any { return &RetryCase{} }, Run: runRetryCase, NeedBB: true, Quick: 500, Shards: 6,
		Rule: "A case is a booted proxy with maxAttempts 1..7 plus 1-30 requests whose scripted upstream answers each attempt from {2xx, 3xx, 4xx, 5xx, connection closed, garbage, half a header, truncated body, broken chunking}; one evaluation compares attempt count, every attempt's request and the final response with the retry model. Non-trivial: the first attempt fails."})
}
