package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// ---- P18: TLS termination, HTTP/2 and HSTS ----

type TLSReq struct {
	E  Exch
	To string // r jwt about nores none big bad
}
type TLSProbe struct {
	Kind     string // hello, plain, raw
	Min, Max uint16
	Suites   []uint16
	ALPN     []string
	Raw      []byte
}
type TLSGroup struct {
	Via    string // h2, h1-12, h1-13
	Resume bool
	Par    int
	KA     bool
	Reqs   []TLSReq
}
type TLSCase struct {
	Mode   string
	RSA    bool
	Inter  bool
	Max    int
	Groups []TLSGroup
	Probes []TLSProbe
}

var goodSuites12 = []uint16{tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256}
var weakSuites = []uint16{tls.TLS_RSA_WITH_AES_128_CBC_SHA, tls.TLS_RSA_WITH_AES_256_CBC_SHA, tls.TLS_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_RSA_WITH_AES_256_GCM_SHA384, tls.TLS_RSA_WITH_3DES_EDE_CBC_SHA, tls.TLS_RSA_WITH_RC4_128_SHA,
	tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA, tls.TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA, tls.TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA, tls.TLS_ECDHE_RSA_WITH_RC4_128_SHA, tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256, tls.TLS_RSA_WITH_AES_128_CBC_SHA256}

func genTLSCase(t *rapid.T) any {
	c := &TLSCase{Mode: rapid.SampledFrom([]string{"TLS", "TLS", "TLS", "tls", "Tls", "HTTP", ""}).Draw(t, "mode"), RSA: chance(t, "rsa", 70), Inter: rapid.Bool().Draw(t, "inter"), Max: intR(t, "max", 1, 2)}
	plain := !strings.EqualFold(c.Mode, "TLS")
	for n := intR(t, "ngroups", 1, 3); n > 0; n-- {
		g := TLSGroup{Via: rapid.SampledFrom([]string{"h2", "h2", "h1-13", "h1-12"}).Draw(t, "via"), Resume: rapid.Bool().Draw(t, "resume"), Par: rapid.SampledFrom([]int{1, 4, 8}).Draw(t, "par"), KA: rapid.Bool().Draw(t, "ka")}
		if g.Via == "h1-12" && !c.RSA {
			g.Via = "h1-13" // the documented TLS 1.2 suites are for RSA certificates
		}
		if plain {
			g.Via = "plain"
		}
		g.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) TLSReq {
			r := TLSReq{To: rapid.SampledFrom([]string{"r", "r", "r", "r", "jwt", "about", "nores", "none", "big", "bad", "fail"}).Draw(t, "to")}
			target := map[string]string{"r": "/r" + genPath(t, 3) + genQuery(t), "jwt": "/jwt/x", "about": "/about", "nores": "/nores", "none": "/zzz", "big": "/r/big", "bad": "/r/bad", "fail": "/r/fail"}[r.To]
			r.E = genReq(t, target, 2)
			r.E.Proto = ""
			u := genUpOK(t, 2)
			switch r.To {
			case "big":
				r.E.Method, r.E.Framing, r.E.Body = "POST", rapid.SampledFrom([]string{"cl", "chunked"}).Draw(t, "bf"), BodySpec{"text", 2<<20 + intR(t, "over", 1, 5000), 1}
			case "bad":
				r.E.Method, r.E.Body, r.E.Framing = rapid.SampledFrom([]string{"PATCH", "PROPFIND"}).Draw(t, "bm"), BodySpec{}, ""
			case "fail":
				u = UpResp{Status: rapid.SampledFrom([]int{500, 503, 404, 401, 400}).Draw(t, "fs")}
			}
			if g.Via == "h2" {
				// HTTP/2 joins and splits these itself; the transport adds its own length handling for empty bodies
				var hs []HV
				for _, h := range r.E.Hdrs {
					if !inList(h[0], "Cookie") {
						hs = append(hs, h)
					}
				}
				r.E.Hdrs = hs
			}
			if !plain && chance(t, "uphsts", 15) {
				u.Hdrs = append(u.Hdrs, HV{"Strict-Transport-Security", rapid.SampledFrom([]string{"max-age=0", "max-age=31536000", "max-age=5; includeSubDomains"}).Draw(t, "uh")})
			}
			r.E.Ups = []UpResp{u}
			return r
		}), 1, 12).Draw(t, "reqs")
		c.Groups = append(c.Groups, g)
	}
	if plain {
		return c
	}
	c.Probes = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) TLSProbe {
		p := TLSProbe{Kind: rapid.SampledFrom([]string{"hello", "hello", "hello", "plain", "raw"}).Draw(t, "pk")}
		switch p.Kind {
		case "hello":
			p.Min = rapid.SampledFrom([]uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13}).Draw(t, "min")
			p.Max = max(p.Min, rapid.SampledFrom([]uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13}).Draw(t, "max"))
			switch intR(t, "suites", 0, 3) {
			case 0:
				p.Suites = rapid.SliceOfNDistinct(rapid.SampledFrom(weakSuites), 1, 6, rapid.ID[uint16]).Draw(t, "weak")
			case 1:
				p.Suites = append(rapid.SliceOfNDistinct(rapid.SampledFrom(weakSuites), 1, 6, rapid.ID[uint16]).Draw(t, "weak"), rapid.SampledFrom(goodSuites12).Draw(t, "good"))
			case 2:
				p.Suites = []uint16{rapid.SampledFrom(goodSuites12).Draw(t, "good")}
			}
			p.ALPN = rapid.SampledFrom([][]string{nil, {"http/1.1"}, {"h2"}, {"h2", "http/1.1"}, {"http/1.1", "h2"}}).Draw(t, "alpn")
		case "plain":
			p.Raw = []byte("GET /r/plain HTTP/1.1\r\nHost: j8a.test\r\nConnection: close\r\n\r\n")
			if chance(t, "h2c", 30) {
				p.Raw = []byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00")
			}
		case "raw":
			p.Raw = rapid.SliceOfN(rapid.Byte(), 1, 200).Draw(t, "raw")
			if chance(t, "rec", 50) {
				p.Raw = append([]byte{0x16, 3, 1, 0, byte(len(p.Raw)), 1}, p.Raw...)
			}
		}
		return p
	}), 0, 8).Draw(t, "probes")
	return c
}

// h2Batch plays exchanges over HTTP/2.
func (e *Env) h2Batch(j *J8a, conf *tls.Config, xs []Exch, par int) []XR {
	hub := e.hub()
	tr := &http.Transport{TLSClientConfig: conf, ForceAttemptHTTP2: true, DisableCompression: true}
	defer tr.CloseIdleConnections()
	out := make([]XR, len(xs))
	for i, x := range xs {
		out[i].E, out[i].ID = x, hub.newID()
		hub.register(out[i].ID, x.Ups)
	}
	var idx int64 = -1
	var wg sync.WaitGroup
	for k := 0; k < par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&idx, 1))
				if i >= len(xs) {
					return
				}
				x := xs[i]
				ctx, cancel := context.WithTimeout(context.Background(), clientDeadline)
				var body io.Reader
				if x.Framing != "" {
					body = bytes.NewReader(x.Body.bytes())
					if strings.HasPrefix(x.Framing, "chunked") {
						body = io.MultiReader(body) // length unknown to the transport
					}
				}
				req, err := http.NewRequestWithContext(ctx, x.Method, "https://"+j.Addr+"/", body)
				must(err)
				req.URL = &url.URL{Scheme: "https", Host: j.Addr, Opaque: x.Target}
				req.Host = "j8a.test"
				if x.Host != "" {
					req.Host = x.Host
				}
				req.Header[idHeader] = []string{out[i].ID}
				for _, h := range x.Hdrs {
					req.Header.Add(h[0], h[1])
				}
				d := DownResp{}
				resp, err := tr.RoundTrip(req)
				if err != nil {
					d.Err, d.Hang = err, ctx.Err() != nil
				} else {
					d.Status, d.Proto, d.Hdr, d.CL = resp.StatusCode, resp.Proto, resp.Header, resp.ContentLength
					d.Body, err = io.ReadAll(resp.Body)
					resp.Body.Close()
					if err != nil {
						d.Err, d.Hang = fmt.Errorf("reading body after status %d (%d bytes): %w", d.Status, len(d.Body), err), ctx.Err() != nil
					}
				}
				cancel()
				out[i].Resp = d
			}
		}()
	}
	wg.Wait()
	for i := range out {
		out[i].Ups = hub.take(out[i].ID)
	}
	return out
}

func tlsChain(rsa, inter bool) []CertSpec {
	ch := stdChain(rsa)
	if inter {
		ch = []CertSpec{ch[0], {CN: "Verif Inter", RSA: rsa, Key: 2, From: -2 * day, To: 600 * day, CA: true, Serial: "0203"}, ch[1]}
	}
	return ch
}

func runTLSCase(env *Env, ci any) (o Outcome) {
	c := ci.(*TLSCase)
	tlsMode := strings.EqualFold(c.Mode, "TLS")
	specs := tlsChain(c.RSA, c.Inter)
	ders, err := makeChain(specs, time.Now())
	if err != nil {
		o.Infra = err.Error()
		return
	}
	cfg := Cfg{Routes: []CfgRoute{{Path: "/r", Resource: "r"}, {Path: "/jwt", Resource: "r", Jwt: "j"}, {Path: "/about", Resource: "about"}, {Path: "/nores", Resource: "missing"}},
		Resources: map[string][]CfgRes{"r": {{Up: 0}}}, Up: map[string]any{"maxAttempts": c.Max}, Down: map[string]any{},
		Jwt: map[string]any{"j": map[string]any{"alg": "HS256", "key": "s3cr3t-s3cr3t-s3cr3t-s3cr3t-s3cr3t"}}}
	if c.Mode != "" {
		cfg.Down["mode"] = c.Mode
	}
	if tlsMode {
		cfg.Down["cert"], cfg.Down["key"] = chainPEM(ders...), keyPEM(specs[0])
	}
	j := startOrFail(env, cfg, startOpt{}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	base := &tls.Config{ServerName: "j8a.test"}
	if tlsMode {
		base.RootCAs = poolOf(ders[len(ders)-1])
	}
	for gi, g := range c.Groups {
		conf := base.Clone()
		if g.Resume {
			conf.ClientSessionCache = tls.NewLRUClientSessionCache(10)
		}
		var xs []Exch
		for _, r := range g.Reqs {
			xs = append(xs, r.E)
		}
		var out []XR
		switch g.Via {
		case "h2":
			out = env.h2Batch(j, conf, xs, g.Par)
		case "plain":
			out = env.runBatch(j, xs, g.Par, g.KA)
		default:
			conf.MinVersion, conf.MaxVersion = tls.VersionTLS13, tls.VersionTLS13
			if g.Via == "h1-12" {
				conf.MinVersion, conf.MaxVersion = tls.VersionTLS12, tls.VersionTLS12
			}
			out = env.runBatchHook(j, xs, g.Par, g.KA, func() (*Conn, error) { return dialTLS(j.Addr, conf) })
		}
		for i, x := range out {
			r := g.Reqs[i]
			where := fmt.Sprintf("group %d via %s: %s %s", gi, g.Via, x.E.Method, x.E.Target)
			o.item(fmt.Sprint(c.Mode, g.Via, x.E), g.Via != "plain", "via-"+g.Via, "to-"+r.To)
			if r.To == "big" && g.Via == "h2" && x.Resp.Err != nil && !x.Resp.Hang {
				continue // the stream may be reset while the oversized body is still being sent
			}
			if noResp(&o, x) {
				continue
			}
			if g.Via == "h2" && x.Resp.Proto != "HTTP/2.0" {
				o.failf("%s: answered over %s, HTTP/2 was offered", where, x.Resp.Proto)
			}
			hsts := x.Resp.Hdr["Strict-Transport-Security"]
			if tlsMode && (len(hsts) != 1 || hsts[0] != "max-age=31536000") {
				o.failf("%s: status %d carries Strict-Transport-Security %q, want exactly max-age=31536000", where, x.Resp.Status, hsts)
			}
			if !tlsMode && len(hsts) > 0 {
				o.failf("%s: Strict-Transport-Security %q in HTTP mode", where, hsts)
			}
			delete(x.Resp.Hdr, "Strict-Transport-Security")
			want := map[string]int{"jwt": 401, "about": 200, "nores": 503, "none": 404, "big": 413, "bad": 400}[r.To]
			if r.To == "fail" {
				if want = x.E.Ups[0].Status; want >= 500 {
					want = 502
				}
			}
			if want != 0 {
				if x.Resp.Status != want {
					o.failf("%s: want status %d, got %s", where, want, x.Resp.brief())
				}
				continue
			}
			if len(x.Ups) != 1 {
				o.failf("%s: upstream was called %d times; %s", where, len(x.Ups), x.Resp.brief())
				continue
			}
			checkUpReq(&o, x.E, x.E.Target, x.Ups[0])
			up := x.E.Ups[0]
			var hs []HV
			for _, h := range up.Hdrs {
				if h[0] != "Strict-Transport-Security" {
					hs = append(hs, h)
				}
			}
			up.Hdrs = hs
			checkRespFidelity(&o, x, up)
		}
	}
	for _, p := range c.Probes {
		where := fmt.Sprintf("probe %+v (RSA certificate %v)", p, c.RSA)
		o.item(fmt.Sprint(p, c.RSA, c.Inter), true, "probe-"+p.Kind)
		switch p.Kind {
		case "hello":
			has := func(l []uint16) bool {
				if p.Suites == nil {
					return true
				}
				for _, a := range p.Suites {
					for _, b := range l {
						if a == b {
							return true
						}
					}
				}
				return false
			}
			want := uint16(0)
			if p.Max >= tls.VersionTLS13 {
				want = tls.VersionTLS13
			} else if p.Max == tls.VersionTLS12 && c.RSA && has(goodSuites12) {
				want = tls.VersionTLS12
			}
			conf := base.Clone()
			conf.MinVersion, conf.MaxVersion, conf.CipherSuites, conf.NextProtos = p.Min, p.Max, p.Suites, p.ALPN
			cn, err := dialTLS(j.Addr, conf)
			if err != nil {
				if want != 0 {
					o.failf("%s: handshake failed: %v", where, err)
					o.Hang = isTimeout(err)
				}
				continue
			}
			st := cn.c.(*tls.Conn).ConnectionState()
			cn.c.Close()
			if want == 0 {
				o.failf("%s: the server agreed to %s with %s", where, tls.VersionName(st.Version), tls.CipherSuiteName(st.CipherSuite))
				continue
			}
			if st.Version != want {
				o.failf("%s: negotiated %s, want %s", where, tls.VersionName(st.Version), tls.VersionName(want))
			}
			if st.Version == tls.VersionTLS12 && st.CipherSuite != goodSuites12[0] && st.CipherSuite != goodSuites12[1] {
				o.failf("%s: negotiated cipher suite %s", where, tls.CipherSuiteName(st.CipherSuite))
			}
			wantP := ""
			if len(p.ALPN) > 0 {
				wantP = p.ALPN[0]
				if len(p.ALPN) > 1 {
					wantP = "h2" // the server prefers HTTP/2
				}
			}
			if st.NegotiatedProtocol != wantP {
				o.failf("%s: negotiated protocol %q, want %q", where, st.NegotiatedProtocol, wantP)
			}
			if len(st.PeerCertificates) != len(ders) {
				o.failf("%s: server presents %d certificates, %d configured", where, len(st.PeerCertificates), len(ders))
			} else {
				for i := range ders {
					if !bytes.Equal(st.PeerCertificates[i].Raw, ders[i]) {
						o.failf("%s: certificate %d presented is not the one configured", where, i)
					}
				}
			}
		default:
			cn, err := dial(j.Addr)
			if err != nil {
				o.failf("%s: %v", where, err)
				continue
			}
			cn.c.SetDeadline(time.Now().Add(2 * time.Second))
			cn.c.Write(p.Raw)
			if tc, ok := cn.c.(interface{ CloseWrite() error }); ok {
				tc.CloseWrite()
			}
			b, _ := io.ReadAll(cn.c)
			cn.c.Close()
			if bytes.Contains(b, []byte("X-Orphan")) || bytes.HasPrefix(b, []byte("HTTP/1.1 200")) {
				o.failf("%s: plain HTTP was served on the TLS port: %q", where, trunc(string(b), 200))
			}
		}
	}
	finish(env, j, &o)
	return
}

// ---- P19: certificate health check ----

type CertCheckCase struct {
	Chain []CertSpec
	Days  int
	BB    bool
}

func genCertCheckCase(t *rapid.T) any {
	c := &CertCheckCase{Days: intR(t, "days", 0, 45), BB: chance(t, "bb", 8)}
	n := intR(t, "n", 2, 4)
	span := func(label string) (int, int) {
		// never exactly on a day boundary, where the instant of the check is decisive to the second
		from := -intR(t, label+"age", 0, 500)*day - intR(t, label+"s", 100, 80000)
		to := rapid.SampledFrom([]int{1, 2, 5, 28, 29, 30, 31, 32, 35, 40, 60, 90, 397, 398, 400, 825, 3000}).Draw(t, label+"left")*day + rapid.SampledFrom([]int{0, 0, -day}).Draw(t, label+"adj") + intR(t, label+"s2", 100, 80000)
		return from, to
	}
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		from, to := span(fmt.Sprint("c", i))
		if c.BB && to < 3600 {
			to += 3600
		}
		for used[to] {
			to += 7
		}
		used[to] = true
		s := CertSpec{CN: rapid.SampledFrom([]string{"Alpha", "Beta CA", "R3", "x"}).Draw(t, "cn") + fmt.Sprint(i), Key: i, RSA: i == 0 && c.BB, From: from, To: to, CA: i > 0,
			Serial: rapid.StringMatching(`[1-7][0-9a-f]{0,30}`).Draw(t, "serial")}
		if i == 0 {
			s.DNS = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"j8a.test", "localhost", "*.example.com", "a.b.c.example"}), 1, 3, rapid.ID[string]).Draw(t, "dns")
		}
		c.Chain = append(c.Chain, s)
	}
	return c
}

func wantSerial(hex string) string {
	n, _ := new(big.Int).SetString(hex, 16)
	s := strings.ToUpper(n.Text(16))
	if len(s)%2 == 1 {
		s = "0" + s
	}
	var p []string
	for i := 0; i < len(s); i += 2 {
		p = append(p, s[i:i+2])
	}
	return strings.Join(p, "-")
}

var durUnits = map[string]float64{"year": 365 * day, "week": 7 * day, "day": day, "hour": 3600, "minute": 60, "second": 1, "millisecond": 0.001, "microsecond": 1e-6}
var durTok = regexp.MustCompile(`(\d+) ([a-z]+?)s?\b`)

// durOK: text (two largest units) describes d seconds up to its smallest unit.
func durOK(text string, d float64) bool {
	m := durTok.FindAllStringSubmatch(text, -1)
	if len(m) == 0 {
		return false
	}
	sum, unit := 0.0, 0.0
	for _, x := range m {
		u, ok := durUnits[x[2]]
		if !ok {
			return false
		}
		v, _ := strconv.ParseFloat(x[1], 64)
		sum += v * u
		unit = u
	}
	if len(m) == 1 && unit > 1 { // the second unit is 0 and left out
		unit = max(1, unit/4)
	}
	return sum <= d+2 && d < sum+unit+2
}

// judgeCertReport checks one report made at now (seconds on the chain's time scale).
func judgeCertReport(o *Outcome, where string, chain []CertSpec, base time.Time, now int, line string) {
	var ev struct{ Level, Message string }
	if err := json.Unmarshal([]byte(line), &ev); err != nil {
		o.failf("%s: log line is not JSON: %q", where, line)
		return
	}
	first := 0
	for i, s := range chain {
		if s.To < chain[first].To {
			first = i
		}
	}
	left := chain[first].To - now
	wantLevel := "debug"
	if left < 30*day {
		wantLevel = "warn"
	}
	if ev.Level != wantLevel {
		o.failf("%s: report logged at level %s, the earliest expiry of the chain is in %.2f days", where, ev.Level, float64(left)/day)
	}
	msg := ev.Message
	if !strings.Contains(msg, fmt.Sprintf("chain size %d ", len(chain))) {
		o.failf("%s: report does not state a chain of %d certificates: %s", where, len(chain), msg)
	}
	// one section per certificate, in order
	var secs []string
	rest := msg
	for i := range chain {
		tag := fmt.Sprintf("[%d/%d] ", i+1, len(chain))
		k := strings.Index(rest, tag)
		if k < 0 {
			o.failf("%s: report has no section %s: %s", where, tag, msg)
			return
		}
		if i > 0 {
			secs = append(secs, rest[:k])
		}
		rest = rest[k+len(tag):]
	}
	secs = append(secs, rest)
	for i, s := range chain {
		sec := secs[i]
		issuer := chain[min(i+1, len(chain)-1)].CN
		need := []string{"#" + wantSerial(s.Serial) + " ", "[" + issuer + "]"}
		if s.CA {
			kind := "Intermediate CA"
			if i == len(chain)-1 {
				kind = "Root CA"
			}
			need = append(need, kind, "["+s.CN+"]")
		} else {
			need = append(need, strings.Join(s.DNS, " "), base.Add(time.Duration(s.From)*time.Second).UTC().Format("2006-01-02"))
		}
		for _, n := range need {
			if !strings.Contains(sec, n) {
				o.failf("%s: report on certificate %d does not mention %q: %s", where, i+1, n, sec)
			}
		}
		exp := sec[strings.Index(sec, "expires in ")+len("expires in "):]
		if k := strings.IndexAny(exp, ".,"); k >= 0 {
			exp = exp[:k]
		}
		if !durOK(exp, float64(s.To-now)) {
			o.failf("%s: certificate %d reported to expire in %q, it does in %.3f days", where, i+1, exp, float64(s.To-now)/day)
		}
		if !s.CA {
			if strings.Contains(sec, "earliest in your chain") != (first == i) {
				o.failf("%s: earliest-expiry mark on certificate %d, the earliest is %d: %s", where, i+1, first+1, sec)
			}
			if strings.Contains(sec, "above legal browser max") != (s.To-s.From > 398*day) {
				o.failf("%s: total validity is %.1f days: %s", where, float64(s.To-s.From)/day, sec)
			}
			if grace := s.From + 398*day - now; grace > 0 && !strings.Contains(sec, "disruption") || grace <= 0 && !strings.Contains(sec, "expired") {
				o.failf("%s: browser validity left is %.1f days: %s", where, float64(grace)/day, sec)
			}
		}
	}
}

func runCertCheckCase(env *Env, ci any) (o Outcome) {
	c := ci.(*CertCheckCase)
	if c.BB {
		base := time.Now().Truncate(time.Second)
		ders, err := makeChain(c.Chain, base)
		if err != nil {
			o.Infra = err.Error()
			return
		}
		cfg := Cfg{Routes: []CfgRoute{{Path: "/", Resource: "r"}}, Resources: map[string][]CfgRes{"r": {{Up: 0}}}, Down: map[string]any{"mode": "TLS", "cert": chainPEM(ders...), "key": keyPEM(c.Chain[0])}}
		j := startOrFail(env, cfg, startOpt{env: []string{"LOGLEVEL=DEBUG"}}, &o)
		if j == nil {
			return
		}
		defer j.stop()
		var got []string
		for i := 0; i < 1000; i++ {
			got = nil
			for _, l := range strings.Split(j.stderr.String(), "\n") {
				if strings.Contains(l, "chain size") {
					got = append(got, l)
				}
			}
			if len(got) > 0 {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		o.item(fmt.Sprint(c), true, "real-binary")
		if len(got) != 1 {
			o.failf("starting in TLS mode logged %d certificate reports: %s", len(got), trunc(j.stderr.String(), 1500))
			o.Hang = true
			return
		}
		judgeCertReport(&o, "at startup", c.Chain, base, int(time.Since(base)/time.Second), got[0])
		finish(env, j, &o)
		return
	}
	base := time.Unix(simEpoch, 0)
	ders, err := makeChain(c.Chain, base)
	if err != nil {
		o.Infra = err.Error()
		return
	}
	var res struct {
		Ev []struct {
			At   int64
			Line string
		}
		Done bool
	}
	if !env.ipRun(&o, "tlscheck", map[string]any{"Chain": ders, "Days": c.Days, "Daemon": true}, &res) {
		return
	}
	if res.Done {
		o.failf("the daily check ended within %d days", c.Days)
	}
	byDay := map[int][]string{}
	for _, e := range res.Ev {
		if e.At%day > 5 {
			o.failf("a report was made %d seconds into day %d", e.At%day, e.At/day)
		}
		byDay[int(e.At/day)] = append(byDay[int(e.At/day)], e.Line)
	}
	for d := 0; d <= c.Days; d++ {
		now := d * day
		valid := true
		soon := false
		for _, s := range c.Chain {
			valid = valid && now < s.To && now > s.From
			soon = soon || s.To-now < 30*day
		}
		lab := "calm"
		if !valid {
			lab = "invalid"
		} else if soon {
			lab = "expiring"
		}
		o.item(fmt.Sprint(c.Chain, d), true, lab)
		where := fmt.Sprintf("day %d", d)
		if !valid {
			warned := false
			for _, l := range byDay[d] {
				warned = warned || strings.Contains(l, `"level":"warn"`) || strings.Contains(l, `"level":"error"`)
			}
			if !warned {
				o.failf("%s: the chain has expired and no warning was logged (%d lines)", where, len(byDay[d]))
			}
			continue
		}
		if len(byDay[d]) != 1 {
			o.failf("%s: %d reports, want one: %v", where, len(byDay[d]), byDay[d])
			continue
		}
		judgeCertReport(&o, where, c.Chain, base, now, byDay[d][0])
	}
	return
}

func init() {
	register(&Prop{ID: "P18", Gen: genTLSCase, New: func() any { return &TLSCase{} }, Run: runTLSCase, NeedBB: true, Quick: 200, Shards: 6,
		Rule: "A case is a proxy booted in TLS (or HTTP) mode with a generated RSA or EC chain, 1-3 groups of up to 12 requests each over HTTP/2, HTTP/1.1 on TLS 1.2 or 1.3 (with and without session resumption) or plain, to proxied, about, unauthorised, unmatched, unmapped, oversized, illegal and failing routes, plus up to 8 probes (client hellos of every version and cipher suite set, plain HTTP, garbage). Evaluations compare both directions byte for byte, HSTS, negotiated version, suite, protocol and presented chain. Non-trivial: everything over TLS."})
	register(&Prop{ID: "P19", Gen: genCertCheckCase, New: func() any { return &CertCheckCase{} }, Run: runCertCheckCase, NeedBB: true, NeedIP: true, Quick: 600, Shards: 6,
		Rule: "A case is a chain of 2-4 certificates with generated validities, serials and names, checked daily for 0-45 simulated days (or, one in twelve, once by the booted binary): every day must bring exactly one report, logged as a warning iff the earliest expiry is less than 30 days away (or the chain is no longer valid), with serials, names, issuers, dates and remaining times that match. Non-trivial: all."})
}
