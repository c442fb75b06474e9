package main

import (
	"bytes"
	"fmt"
	"net/http"
	"net/textproto"
	"reflect"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// canonical header multimap from generated lines
func hdrMap(hs []HV) map[string][]string {
	m := map[string][]string{}
	for _, h := range hs {
		k := textproto.CanonicalMIMEHeaderKey(h[0])
		m[k] = append(m[k], strings.TrimSpace(h[1]))
	}
	return m
}

func inList(s string, l ...string) bool {
	for _, x := range l {
		if strings.EqualFold(s, x) {
			return true
		}
	}
	return false
}

// ---- request generator shared by P02, P09, P15 ----

var legalMethods = []string{"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST"}

func fixUA(hs []HV) []HV {
	var out []HV
	seen := false
	for _, h := range hs {
		if strings.EqualFold(h[0], "User-Agent") {
			if seen || h[1] == "" {
				continue
			}
			seen = true
		}
		out = append(out, h)
	}
	return out
}

// request headers that HTTP/1.1 gives connection-level meaning, or that the generator sets itself
var reqForbid = []string{"connection", "host", "content-length", "transfer-encoding", "te", "trailer", "upgrade", "expect", "keep-alive", "proxy-connection", "date", "server", "accept-encoding", "x-request-id", "x-request-debug", strings.ToLower(idHeader)}

var aeChoices = []string{"gzip", "gzip, deflate", "gzip, deflate, br", "deflate, gzip;q=1.0, *;q=0.5", "br;q=1.0, gzip;q=0.8", "identity", "br", "deflate", "*", "", "gzip;q=0", "identity, gzip;q=0.0", "deflate, gzip;q=0", "x-custom", "gzip;q=0.001", "zstd, br"}

func genReq(t *rapid.T, target string, bigPct int) Exch {
	e := Exch{Method: rapid.SampledFrom(legalMethods).Draw(t, "method"), Target: target, Abs: genAbs(t), Host: genHost(t)}
	e.Hdrs = fixUA(genHdrs(t, 10, reqForbid...))
	if chance(t, "ae", 60) {
		// an empty Accept-Encoding makes Go's transport add its own; kept to P03/P04
		if ae := rapid.SampledFrom(aeChoices).Draw(t, "aev"); ae != "" {
			e.Hdrs = append(e.Hdrs, HV{"Accept-Encoding", ae})
		}
	}
	if chance(t, "xrid", 30) {
		e.Hdrs = append(e.Hdrs, HV{"X-Request-Id", genReqID.Draw(t, "xridv")})
	}
	if chance(t, "dateHdr", 10) {
		e.Hdrs = append(e.Hdrs, HV{"Date", "Tue, 15 Nov 1994 08:12:31 GMT"})
	}
	if chance(t, "http10", 8) {
		e.Proto = "HTTP/1.0"
	}
	hasBody := false
	switch e.Method {
	case "POST", "PUT":
		hasBody = chance(t, "body", 85)
	case "DELETE", "OPTIONS", "GET":
		hasBody = chance(t, "body", 30)
	}
	if hasBody {
		e.Body = genBody(t, bigPct)
		e.Framing = "cl"
		if e.Proto == "" && chance(t, "chunked", 40) {
			e.Framing = "chunked"
			e.Chunk = rapid.SampledFrom([]int{1, 7, 100, 1000, 4096, 65536}).Draw(t, "chunk")
		}
	} else if inList(e.Method, "POST", "PUT") && chance(t, "cl0", 70) {
		e.Framing = "cl"
	}
	return e
}

// checkUpReq compares one upstream request with what the client sent.
func checkUpReq(o *Outcome, e Exch, wantURI string, u UpReq) {
	where := fmt.Sprintf("%s %s", e.Method, e.Target)
	if u.Method != e.Method {
		o.failf("%s: upstream saw method %q", where, u.Method)
	}
	if u.URI != wantURI {
		o.failf("%s: upstream saw request target %q, want %q", where, u.URI, wantURI)
	}
	if u.BodyErr != "" {
		o.failf("%s: upstream could not read the request body: %s", where, u.BodyErr)
	}
	if want := e.Body.bytes(); !bytes.Equal(u.Body, want) {
		o.failf("%s: upstream received a body of %d bytes that differs from the %d bytes sent (framing %q)", where, len(u.Body), len(want), e.Framing)
	}
	want := hdrMap(e.Hdrs)
	for k, v := range want {
		if inList(k, "Date", "Content-Length", "Transfer-Encoding", "Server", "X-Request-Id") {
			continue
		}
		if !reflect.DeepEqual(u.Hdr[k], v) {
			o.failf("%s: request header %s sent as %q reached upstream as %q", where, k, v, u.Hdr[k])
		}
	}
	for k, v := range u.Hdr {
		if _, ok := want[k]; ok && !inList(k, "Date", "Server") {
			continue
		}
		switch {
		case k == "X-Request-Id", k == textproto.CanonicalMIMEHeaderKey(idHeader), k == "Content-Length":
		case k == "User-Agent" && len(v) == 1 && strings.HasPrefix(v[0], "Go-http-client"):
		case k == "Accept-Encoding" && len(v) == 1 && v[0] == "gzip":
		default:
			o.failf("%s: upstream saw header %s=%q the client never sent", where, k, v)
		}
	}
}

type ReqCase struct {
	Cfg  Cfg
	Reqs []Exch
	Par  int
	KA   bool
}

func wantUpURI(cfg Cfg, e Exch) string {
	i := longestMatch(cfg, e.Target)
	if i < 0 {
		return ""
	}
	r := cfg.Routes[i]
	if r.Transform == "" {
		return e.Target
	}
	t := r.Transform
	if t == "/" {
		t = ""
	}
	u := t + e.Target[len(normPath(r.Path)):]
	if !strings.HasPrefix(u, "/") {
		u = "/" + u
	}
	return u
}

func genFidelityCfg(t *rapid.T, transforms bool) (Cfg, []string) {
	var c Cfg
	c.Resources = map[string][]CfgRes{"r": {{Up: 0}}}
	n := rapid.IntRange(1, 5).Draw(t, "routes")
	seen := map[string]bool{}
	var paths []string
	for i := 0; i < n; i++ {
		p := "/"
		if chance(t, "nonroot", 80) {
			p = genRoutePath.Draw(t, "rp")
		}
		if seen[p] {
			continue
		}
		seen[p] = true
		r := CfgRoute{Path: p, Resource: "r"}
		if transforms && chance(t, "tr", 60) {
			r.Transform = rapid.SampledFrom([]string{"/", "/x", "/x/y", "/t/", "/a", "/a/b/", "/v1", "/todos", "/users/", "/%20z", "/a%2Fb"}).Draw(t, "trv")
		}
		c.Routes = append(c.Routes, r)
		paths = append(paths, p)
	}
	return c, paths
}

func genTargetUnder(t *rapid.T, paths []string) string {
	p := paths[rapid.IntRange(0, len(paths)-1).Draw(t, "tp")]
	tgt := p
	switch rapid.IntRange(0, 4).Draw(t, "tm") {
	case 0:
	case 1:
		tgt = p + rapid.SampledFrom([]string{"a", "b%2Fc", "x", "1", "%41"}).Draw(t, "sfx")
	case 2: // the route path occurs again later in the target
		tgt = strings.TrimSuffix(p, "/") + "/z" + p
	default:
		tgt = strings.TrimSuffix(p, "/") + genPath(t, 4)
	}
	q := genQuery(t)
	if chance(t, "pathInQuery", 10) {
		q = "?next=" + p
	}
	return tgt + q
}

func genReqCase(t *rapid.T) any {
	c := &ReqCase{}
	var paths []string
	c.Cfg, paths = genFidelityCfg(t, true)
	lo, hi := many(t, 1, 40)
	c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Exch {
		e := genReq(t, genTargetUnder(t, paths), 3)
		e.Ups = []UpResp{{Status: rapid.SampledFrom([]int{200, 200, 201, 204, 302}).Draw(t, "st"), Body: BodySpec{"text", 12, 3}}}
		return e
	}), lo, hi).Draw(t, "reqs")
	c.Par = rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "par")
	c.KA = rapid.Bool().Draw(t, "ka")
	return c
}

func startOrFail(env *Env, cfg Cfg, so startOpt, o *Outcome) *J8a {
	j, err := env.start(cfg, so)
	if err == errExited {
		o.failf("valid configuration refused at startup: %s", trunc(j.stderr.String(), 800))
		return nil
	}
	if err != nil {
		o.Infra = err.Error()
		return nil
	}
	return j
}

func noResp(o *Outcome, x XR) bool {
	if x.Resp.Err != nil {
		o.failf("%s %s (%s): %s", x.E.Method, x.E.Target, x.ID, x.Resp.brief())
		o.Hang = o.Hang || x.Resp.Hang
		return true
	}
	return false
}

func finish(env *Env, j *J8a, o *Outcome) {
	if orp := env.hub().takeOrphans(); len(orp) > 0 {
		o.failf("upstream %s received a request that lost its %s header: %s %s %v", orp[0].Server, idHeader, orp[0].Method, orp[0].URI, orp[0].Hdr)
	}
	j.checkAlive(o)
	if s := j.stderr.String(); strings.Contains(s, "WARNING: DATA RACE") {
		o.failf("requests handled at the same time race on shared memory: %s", trunc(s[strings.Index(s, "WARNING: DATA RACE"):], 2500))
	}
}

func runReqCase(env *Env, ci any) (o Outcome) {
	c := ci.(*ReqCase)
	j := startOrFail(env, c.Cfg, startOpt{}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	for _, x := range env.runBatch(j, c.Reqs, c.Par, c.KA) {
		want := wantUpURI(c.Cfg, x.E)
		tr := "plain"
		if want != x.E.Target {
			tr = "transformed"
		}
		nt := len(x.E.Hdrs) > 0 || x.E.Body.Size > 0 || strings.ContainsAny(x.E.Target, "%?") || tr == "transformed"
		bl := "nobody"
		if x.E.Body.Size > 0 {
			bl = "body-" + x.E.Framing
		}
		o.item(fmt.Sprint(c.Cfg.Routes, x.E), nt, tr, bl, "method-"+x.E.Method)
		if noResp(&o, x) {
			continue
		}
		if len(x.Ups) != 1 {
			o.failf("%s %s: upstream was called %d times; %s", x.E.Method, x.E.Target, len(x.Ups), x.Resp.brief())
			continue
		}
		checkUpReq(&o, x.E, want, x.Ups[0])
		if st := x.E.Ups[0].Status; x.Resp.Status != st {
			o.failf("%s %s: upstream answered %d, client got %s", x.E.Method, x.E.Target, st, x.Resp.brief())
		}
	}
	finish(env, j, &o)
	return
}

// ---- P03: response fidelity ----

var respForbid = []string{"connection", "content-length", "transfer-encoding", "te", "trailer", "upgrade", "keep-alive", "proxy-connection", "date", "server", "content-encoding", "x-request-id", "strict-transport-security", strings.ToLower(idHeader)}

func genRespHdrs(t *rapid.T) []HV {
	hs := genHdrs(t, 8, respForbid...)
	n := rapid.IntRange(0, 3).Draw(t, "rh")
	for i := 0; i < n; i++ {
		name := rapid.SampledFrom([]string{"Set-Cookie", "Vary", "WWW-Authenticate", "ETag", "Last-Modified", "Expires", "Age", "Allow", "Access-Control-Allow-Origin", "Retry-After", "Content-Location", "Accept-Ranges", "Content-Range", "X-Powered-By"}).Draw(t, "rhn")
		hs = append(hs, HV{name, genHdrVal.Draw(t, "rhv")})
	}
	// at most one Content-Type (several are merged differently by HTTP stacks)
	var out []HV
	ct := false
	for _, h := range hs {
		if strings.EqualFold(h[0], "Content-Type") {
			if ct || h[1] == "" {
				continue
			}
			ct = true
		}
		out = append(out, h)
	}
	return out
}

func genOKStatus(t *rapid.T) int {
	if rapid.Bool().Draw(t, "common") {
		return rapid.SampledFrom([]int{200, 201, 202, 204, 206, 301, 302, 303, 304, 307, 308}).Draw(t, "st")
	}
	if chance(t, "stany", 30) {
		return intR(t, "stanyv", 200, 399)
	}
	return rapid.SampledFrom([]int{200, 203, 207, 208, 226, 250, 299, 300, 305, 306, 310, 399}).Draw(t, "st2")
}

func genUpOK(t *rapid.T, bigPct int, kinds ...string) UpResp {
	u := UpResp{Status: genOKStatus(t), Hdrs: genRespHdrs(t), Body: genBody(t, bigPct, kinds...)}
	if u.Status == 204 || u.Status == 304 {
		u.Body = BodySpec{}
	}
	if u.Status >= 300 && u.Status < 400 && u.Status != 304 && chance(t, "loc", 80) {
		u.Hdrs = append(u.Hdrs, HV{"Location", rapid.SampledFrom([]string{"/elsewhere", "/", "http://127.0.0.1:9/x", "https://example.com/a?b=c#d", "?q", "relative/x", "http://@UP@/x", "http://@UP@", "http://@UP@/", "//@UP@/x?y=1", "https://@UP@/x", "http://j8a.test/x", "http://@ADDR@/x", "https://j8a.test/"}).Draw(t, "locv")})
	}
	if chance(t, "upgz", 30) && u.Body.Size > 0 {
		u.Enc, u.GzForm = "gzip", rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 5, 8, 10, 14, 24}).Draw(t, "gzform")
	}
	u.Framing = rapid.SampledFrom([]string{"cl", "cl", "chunked", "eof"}).Draw(t, "uf")
	if chance(t, "up10", 10) {
		u.Proto = "HTTP/1.0"
	}
	if chance(t, "upsrv", 30) {
		u.Hdrs = append(u.Hdrs, HV{"Server", "nginx/1.0"})
	}
	if chance(t, "update", 30) {
		u.Hdrs = append(u.Hdrs, HV{"Date", "Tue, 15 Nov 1994 08:12:31 GMT"})
	}
	return u
}

func genRespCase(t *rapid.T) any {
	c := &ReqCase{Cfg: Cfg{Routes: []CfgRoute{{Path: "/", Resource: "r"}}, Resources: map[string][]CfgRes{"r": {{Up: 0}}}}}
	lo, hi := many(t, 1, 40)
	c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Exch {
		e := Exch{Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "TRACE"}).Draw(t, "method"), Target: "/x" + genQuery(t), Host: genHost(t)}
		if chance(t, "ae", 60) {
			e.Hdrs = append(e.Hdrs, HV{"Accept-Encoding", rapid.SampledFrom(aeChoices).Draw(t, "aev")})
		}
		if chance(t, "http10", 8) {
			e.Proto = "HTTP/1.0"
		}
		if e.Method == "POST" || e.Method == "PUT" {
			e.Framing = "cl"
		}
		e.Ups = []UpResp{genUpOK(t, 3)}
		return e
	}), lo, hi).Draw(t, "reqs")
	c.Par = rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "par")
	c.KA = rapid.Bool().Draw(t, "ka")
	return c
}

// decoded applies the response's declared Content-Encoding.
func decoded(d DownResp) ([]byte, error) {
	ce := d.Hdr["Content-Encoding"]
	if len(ce) > 1 {
		return nil, fmt.Errorf("several Content-Encoding headers %q", ce)
	}
	if len(ce) == 0 || ce[0] == "" || strings.EqualFold(ce[0], "identity") || len(d.Body) == 0 {
		return d.Body, nil
	}
	if strings.EqualFold(ce[0], "gzip") {
		b, err := gunzipStrict(d.Body)
		if err != nil {
			return nil, fmt.Errorf("Content-Encoding says gzip, body is not: %v", err)
		}
		return b, nil
	}
	return d.Body, nil
}

var stdRespHdrs = []string{"Server", "X-Request-Id", "Content-Length", "Content-Encoding", "Date", "Connection"}

// checkRespFidelity: status, headers, body of a successful upstream response.
func checkRespFidelity(o *Outcome, x XR, up UpResp) {
	d := x.Resp
	where := fmt.Sprintf("%s %s (upstream %d %s)", x.E.Method, x.E.Target, up.Status, up.Framing)
	if d.Status != up.Status {
		o.failf("%s: client got %s", where, d.brief())
		return
	}
	want := hdrMap(up.Hdrs)
	for k, v := range want {
		if inList(k, "Date", "Server", "Connection") {
			continue
		}
		if up.Status == 304 && k == "Content-Type" {
			continue // RFC 7232 4.1: a 304 carries no representation metadata; HTTP servers strip it
		}
		got := d.Hdr[k]
		if !reflect.DeepEqual(got, v) {
			o.failf("%s: response header %s sent by upstream as %q reached the client as %q", where, k, v, got)
		}
	}
	var extra []string
	for k := range d.Hdr {
		if _, ok := want[k]; !ok && !inList(k, stdRespHdrs...) && k != "Content-Type" {
			extra = append(extra, k)
		}
	}
	sort.Strings(extra)
	if len(extra) > 0 {
		o.failf("%s: client got headers upstream never sent: %v", where, extra)
	}
	if s := d.Hdr["Server"]; len(s) != 1 || !strings.HasPrefix(s[0], "j8a") {
		o.failf("%s: Server header %q, want exactly the proxy's own", where, s)
	}
	if s := d.Hdr["Date"]; len(s) != 1 || strings.Contains(s[0], "1994") {
		o.failf("%s: Date header %q, want exactly the proxy's own", where, s)
	}
	if x.E.Method == "HEAD" || up.Status == 204 || up.Status == 304 {
		if len(d.Body) != 0 {
			o.failf("%s: body of %d bytes where none is allowed", where, len(d.Body))
		}
		if n := itoa(len(up.wireBody())); x.E.Method == "HEAD" && up.Framing == "cl" && up.Status != 204 && up.Status != 304 {
			if cl := d.Hdr["Content-Length"]; len(cl) != 1 || cl[0] != n {
				o.failf("%s: upstream declared a length of %s, the client was told %q", where, n, cl)
			}
		}
		return
	}
	b, err := decoded(d)
	if err != nil {
		o.failf("%s: %v", where, err)
		return
	}
	if want := up.Body.bytes(); !bytes.Equal(b, want) {
		o.failf("%s: client decoded a body of %d bytes, upstream's is %d bytes and differs (CE %q, AE %q)", where, len(b), len(want), d.Hdr["Content-Encoding"], x.E.hdr("Accept-Encoding"))
	}
}

func runRespCase(env *Env, ci any) (o Outcome) {
	c := ci.(*ReqCase)
	j := startOrFail(env, c.Cfg, startOpt{}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	for _, x := range env.runBatch(j, c.Reqs, c.Par, c.KA) {
		up := x.E.Ups[0]
		o.item(fmt.Sprint(x.E), up.Status != 200 || len(up.Hdrs) > 0 || up.Body.Size > 0, fmt.Sprintf("status-%dxx", up.Status/100), "upframing-"+up.Framing)
		if noResp(&o, x) {
			continue
		}
		if len(x.Ups) != 1 {
			o.failf("%s %s: upstream was called %d times; %s", x.E.Method, x.E.Target, len(x.Ups), x.Resp.brief())
			continue
		}
		checkRespFidelity(&o, x, up)
	}
	finish(env, j, &o)
	return
}

// ---- P04: content coding ----

// gzipAcceptable follows RFC 7231 5.3.4 for the gzip coding (absent header: identity is what we expect).
func gzipAcceptable(ae []string) (ok, explicit bool) {
	star, starSet := true, false
	for _, line := range ae {
		for _, part := range strings.Split(line, ",") {
			f := strings.Split(part, ";")
			name := strings.ToLower(strings.TrimSpace(f[0]))
			q0 := false
			for _, p := range f[1:] {
				p = strings.ReplaceAll(strings.ToLower(p), " ", "")
				if strings.HasPrefix(p, "q=") && strings.Trim(p[2:], "0.") == "" {
					q0 = true
				}
			}
			switch name {
			case "gzip", "x-gzip":
				return !q0, true
			case "*":
				star, starSet = !q0, true
			}
		}
	}
	if starSet {
		return star, false
	}
	return false, false
}

func genCodingCase(t *rapid.T) any {
	c := &ReqCase{Cfg: Cfg{Routes: []CfgRoute{{Path: "/", Resource: "r"}}, Resources: map[string][]CfgRes{"r": {{Up: 0}}}}}
	lo, hi := many(t, 1, 40)
	c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Exch {
		e := Exch{Method: rapid.SampledFrom([]string{"GET", "GET", "POST", "DELETE", "OPTIONS", "HEAD"}).Draw(t, "method"), Target: "/c", Host: genHost(t)}
		switch rapid.IntRange(0, 4).Draw(t, "aek") {
		case 0:
		case 1:
			n := rapid.IntRange(1, 4).Draw(t, "aen")
			var parts []string
			for i := 0; i < n; i++ {
				parts = append(parts, rapid.SampledFrom([]string{"gzip", "br", "deflate", "identity", "x-foo", "compress"}).Draw(t, "coding")+rapid.SampledFrom([]string{"", "", ";q=1", ";q=0.5", ";q=0", "; q=0", ";q=0.000", ";q=0.01"}).Draw(t, "q"))
			}
			e.Hdrs = append(e.Hdrs, HV{"Accept-Encoding", strings.Join(parts, rapid.SampledFrom([]string{",", ", "}).Draw(t, "sep"))})
		default:
			e.Hdrs = append(e.Hdrs, HV{"Accept-Encoding", rapid.SampledFrom(aeChoices).Draw(t, "aev")})
		}
		if e.Method == "POST" {
			e.Framing = "cl"
		}
		u := UpResp{Status: rapid.SampledFrom([]int{200, 200, 201, 203, 206, 301}).Draw(t, "st"), Body: genBody(t, 3, "text", "json", "rand", "magic", "gz", "zero")}
		if chance(t, "ct", 70) {
			u.Hdrs = append(u.Hdrs, HV{"Content-Type", rapid.SampledFrom([]string{"application/json", "application/gzip", "application/octet-stream", "text/plain"}).Draw(t, "ctv")})
		}
		switch rapid.IntRange(0, 4).Draw(t, "uek") {
		case 0, 1:
		case 2, 3:
			if u.Body.Size > 0 {
				u.Enc, u.GzForm = "gzip", rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 5, 8, 10, 14, 24}).Draw(t, "gzform")
			}
		default:
			u.Hdrs = append(u.Hdrs, HV{"Content-Encoding", rapid.SampledFrom([]string{"br", "deflate", "compress", "zstd", "x-custom", "identity"}).Draw(t, "ue")})
		}
		u.Framing = rapid.SampledFrom([]string{"cl", "chunked", "eof"}).Draw(t, "uf")
		e.Ups = []UpResp{u}
		return e
	}), lo, hi).Draw(t, "reqs")
	c.Par = rapid.SampledFrom([]int{1, 4, 8}).Draw(t, "par")
	c.KA = rapid.Bool().Draw(t, "ka")
	return c
}

func runCodingCase(env *Env, ci any) (o Outcome) {
	c := ci.(*ReqCase)
	j := startOrFail(env, c.Cfg, startOpt{}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	for _, x := range env.runBatch(j, c.Reqs, c.Par, c.KA) {
		up := x.E.Ups[0]
		upCE := "identity"
		for _, h := range up.Hdrs {
			if h[0] == "Content-Encoding" {
				upCE = h[1]
			}
		}
		wire := up.wireBody()
		if up.Enc == "gzip" && len(wire) > 0 {
			upCE = "gzip"
		}
		ae := x.E.hdr("Accept-Encoding")
		okGz, explGz := gzipAcceptable(ae)
		o.item(fmt.Sprint(x.E), len(wire) > 0 && x.E.Method != "HEAD", "up-"+upCE, fmt.Sprintf("clientgzip-%v", okGz), "body-"+up.Body.Kind)
		if noResp(&o, x) {
			continue
		}
		d := x.Resp
		where := fmt.Sprintf("%s AE=%q upstream CE=%s body=%+v", x.E.Method, ae, upCE, up.Body)
		if d.Status != up.Status {
			o.failf("%s: %s", where, d.brief())
			continue
		}
		if x.E.Method == "HEAD" {
			continue
		}
		if cl := d.Hdr["Content-Length"]; len(cl) != 1 || cl[0] != itoa(len(d.Body)) {
			o.failf("%s: Content-Length %q for a body of %d bytes", where, cl, len(d.Body))
		}
		ces := d.Hdr["Content-Encoding"]
		if len(ces) > 1 {
			o.failf("%s: several Content-Encoding headers %q", where, ces)
			continue
		}
		ce := "identity"
		if len(ces) == 1 && ces[0] != "" {
			ce = strings.ToLower(ces[0])
		}
		if len(wire) == 0 {
			if len(d.Body) != 0 {
				o.failf("%s: empty upstream body became %d bytes", where, len(d.Body))
			}
			continue
		}
		plain := wire
		if upCE == "gzip" {
			plain = up.Body.bytes()
		}
		switch {
		case upCE != "identity" && upCE != "gzip":
			if ce != upCE || !bytes.Equal(d.Body, wire) {
				o.failf("%s: a %s body must pass through unchanged, got Content-Encoding %q and %d bytes (same=%v)", where, upCE, ce, len(d.Body), bytes.Equal(d.Body, wire))
			}
			continue
		case ce == "gzip":
			b, err := gunzipStrict(d.Body)
			if err != nil || !bytes.Equal(b, plain) {
				o.failf("%s: response says gzip but decodes to something else (err %v, %d bytes, want %d)", where, err, len(b), len(plain))
			}
			if !okGz {
				o.failf("%s: gzip sent to a client that does not accept it", where)
			}
		case ce == "identity":
			if !bytes.Equal(d.Body, plain) {
				o.failf("%s: identity response body of %d bytes differs from upstream's %d bytes", where, len(d.Body), len(plain))
			}
			if explGz && okGz {
				o.failf("%s: client accepts gzip but got identity", where)
			}
		default:
			o.failf("%s: unexpected Content-Encoding %q", where, ce)
		}
	}
	finish(env, j, &o)
	return
}

var _ = http.StatusOK

func init() {
	register(&Prop{ID: "P02", Gen: genReqCase, New: func() any { return &ReqCase{} }, Run: runReqCase, NeedBB: true, Quick: 600, Shards: 6,
		Rule: "A case is a booted proxy (1-5 literal routes, with and without transform) plus 1-40 requests over all body/no-body methods, generated targets (percent escapes, queries), 0-10 header lines with repeats, bodies of 0..1.5 MB sent with Content-Length or chunked; one evaluation is one request compared byte for byte with what a recording upstream read. Non-trivial: carries headers, a body, an escaped/query target or is transformed."})
	register(&Prop{ID: "P03", Gen: genRespCase, New: func() any { return &ReqCase{} }, Run: runRespCase, NeedBB: true, Quick: 600, Shards: 6,
		Rule: "A case is a booted proxy plus 1-40 requests whose scripted upstream answers 2xx/3xx with generated headers (repeats, Set-Cookie, Location...), bodies 0..1.5 MB, framing Content-Length/chunked/close, HTTP/1.0 or 1.1, optionally gzipped; one evaluation compares status, every header value list and the decoded body. Non-trivial: status other than 200, any header, or a body."})
	register(&Prop{ID: "P04", Gen: genCodingCase, New: func() any { return &ReqCase{} }, Run: runCodingCase, NeedBB: true, Quick: 500, Shards: 6,
		Rule: "A case is a booted proxy plus 1-40 exchanges crossing generated Accept-Encoding values (q-values, absent, lists) with upstream codings (none, gzip, br/deflate/custom) and bodies (text, random, gzip-magic prefixed, .gz files); one evaluation decodes the response by its own Content-Encoding and compares. Non-trivial: non-empty body on a method that returns one."})
}
