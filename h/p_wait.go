package main

import (
	"crypto/tls"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// ---- P33: requests do not wait for each other ----

type WaitCase struct {
	TLS    bool
	Pool   int // poolSize, 0: unset
	Max    int
	Hogs   []WaitHog
	Probes []string
	Par    int
	KA     bool
}
type WaitHog struct {
	Kind   string
	N      int
	Method string
}

var hogKinds = []string{"stall-none", "stall-none", "stall-head", "stall-body", "stall-chunk", "syn", "hello", "head", "body", "noread", "jwks", "jwks", "jwksother", "expect", "idle", "shake"}
var probeKinds = []string{"same", "same", "sibling", "other", "post", "about", "nope", "hs", "hsbad", "jwks", "jwksbad", "policy", "gzip", "up404", "dead", "undefined", "big"}

func genWaitCase(t *rapid.T) any {
	c := &WaitCase{TLS: chance(t, "tls", 30), Pool: rapid.SampledFrom([]int{0, 0, 1, 2, 8, 32}).Draw(t, "pool"), Max: intR(t, "max", 1, 3), Par: rapid.SampledFrom([]int{1, 1, 8, 24}).Draw(t, "par"), KA: rapid.Bool().Draw(t, "ka")}
	c.Hogs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) WaitHog {
		return WaitHog{Kind: rapid.SampledFrom(hogKinds).Draw(t, "kind"), N: rapid.SampledFrom([]int{1, 1, 2, 5, 20, 60, 150}).Draw(t, "n"), Method: rapid.SampledFrom([]string{"GET", "GET", "POST", "PUT"}).Draw(t, "m")}
	}), 1, 4).Draw(t, "hogs")
	c.Probes = append(rapid.SliceOfN(rapid.SampledFrom(probeKinds), 1, 40).Draw(t, "probes"), "same", "other", "hs", "jwks")
	return c
}

const waitLimit = 4 * time.Second

func runWaitCase(env *Env, ci any) (o Outcome) {
	c := ci.(*WaitCase)
	hub := env.hub()
	bport, bdone, berr := blackhole()
	if berr == nil {
		defer bdone()
	}
	mute, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		o.Infra = err.Error()
		return
	}
	defer mute.Close()
	// two key sets: each answers until it is told to hang
	var hang int32
	release := make(chan bool)
	defer close(release)
	jln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		o.Infra = err.Error()
		return
	}
	defer jln.Close()
	go http.Serve(jln, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if atomic.LoadInt32(&hang) > 0 {
			select {
			case <-release:
			case <-time.After(60 * time.Second):
			}
			return
		}
		w.Write([]byte(jwksDoc(jwkOf("RS256", map[string]int{"/one": 0, "/two": 1}[r.URL.Path], "k"))))
	}))
	jurl := "http://" + jln.Addr().String()
	cfg := Cfg{Routes: []CfgRoute{{Path: "/a", Resource: "a"}, {Path: "/b", Resource: "b"}, {Path: "/sib", Resource: "sib"}, {Path: "/about", Resource: "about"}, {Path: "/hs", Resource: "b", Jwt: "hs"}, {Path: "/jwks", Resource: "b", Jwt: "one"}, {Path: "/two", Resource: "b", Jwt: "two"}, {Path: "/pol", Resource: "p", Policy: "p"},
		{Path: "/syn", Resource: "syn"}, {Path: "/hello", Resource: "hello"}, {Path: "/dead", Resource: "dead"}, {Path: "/un", Resource: "nosuch"}},
		Resources: map[string][]CfgRes{"a": {{Up: 0}}, "sib": {{Up: 0}}, "b": {{Up: 1}}, "p": {{Up: 0, Labels: []string{"x"}}, {Up: 1, Labels: []string{"y"}}}, "syn": {{Up: -1, Host: "127.0.0.1", Port: bport}}, "hello": {{Up: -1, Host: "127.0.0.1", Port: mute.Addr().(*net.TCPAddr).Port, Scheme: "https"}}, "dead": {{Up: -1, Host: "127.0.0.1", Port: 1}}},
		Policies:  map[string][]CfgLW{"p": {{Label: "x", Weight: 0.5}, {Label: "y", Weight: 0.5}}},
		Jwt:       map[string]any{"hs": map[string]any{"alg": "HS256", "key": hsSecret(0)}, "one": map[string]any{"alg": "RS256", "jwksUrl": jurl + "/one"}, "two": map[string]any{"alg": "RS256", "jwksUrl": jurl + "/two"}},
		Up:        map[string]any{"socketTimeoutSeconds": 40, "readTimeoutSeconds": 40, "maxAttempts": c.Max},
		Down:      map[string]any{"readTimeoutSeconds": 40, "roundTripTimeoutSeconds": 80, "idleTimeoutSeconds": 60, "maxBodyBytes": 300000}}
	if c.Pool > 0 {
		cfg.Up["poolSize"] = c.Pool
	}
	if berr != nil {
		delete(cfg.Resources, "syn")
	}
	var tlsConf *tls.Config
	if c.TLS {
		specs := tlsChain(false, false)
		ders, err := makeChain(specs, time.Now())
		if err != nil {
			o.Infra = err.Error()
			return
		}
		cfg.Down["mode"], cfg.Down["cert"], cfg.Down["key"] = "TLS", chainPEM(ders...), keyPEM(specs[0])
		tlsConf = &tls.Config{ServerName: "j8a.test", RootCAs: poolOf(ders[len(ders)-1])}
	}
	j := startOrFail(env, cfg, startOpt{}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	atomic.StoreInt32(&hang, 1)
	dialer := func() (*Conn, error) {
		if c.TLS {
			return dialTLS(j.Addr, tlsConf)
		}
		return dial(j.Addr)
	}
	tok := func(alg string, key any, kid string) HV {
		return HV{"Authorization", "Bearer " + mkToken(map[string]any{"alg": alg, "kid": kid}, map[string]any{"sub": "x"}, alg, key)}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var conns []net.Conn
	defer func() {
		for _, cn := range conns {
			cn.Close()
		}
	}()
	labels := []string{}
	for _, h := range c.Hogs {
		labels = append(labels, "hog-"+h.Kind)
		for i := 0; i < h.N; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				id := hub.newID()
				e := Exch{Method: h.Method, Target: "/a/hog"}
				if h.Method != "GET" {
					e.Framing, e.Body = "cl", BodySpec{"text", 50, 1}
				}
				cut := 0 // bytes not sent
				switch h.Kind {
				case "syn", "hello":
					e.Target = "/" + h.Kind
					if h.Kind == "syn" && berr != nil {
						return
					}
				case "head":
					cut = 10 + e.Body.Size
				case "body":
					e.Method, e.Framing, e.Body = "POST", "cl", BodySpec{"text", 200, 1}
					cut = 100
				case "expect":
					e.Method, e.Framing, e.Body = "POST", "cl", BodySpec{"text", 200, 1}
					e.Hdrs = []HV{{"Expect", "100-continue"}}
					cut = 200
				case "noread":
					e.Ups = []UpResp{{Status: 200, Body: BodySpec{"text", 6 << 20, 1}}}
				case "jwks":
					e.Target, e.Hdrs = "/jwks", []HV{tok("RS256", rsaKeys[2], fmt.Sprintf("new-%d", i))}
				case "jwksother":
					e.Target, e.Hdrs = "/two", []HV{tok("RS256", rsaKeys[2], fmt.Sprintf("new-%d", i))}
				case "idle":
					e.Ups = []UpResp{{Status: 200}}
				default:
					e.Ups = []UpResp{{Status: 200, Body: BodySpec{"text", 40, 1}, Fault: h.Kind}}
				}
				hub.register(id, e.Ups)
				var raw net.Conn
				var err error
				if h.Kind == "shake" {
					raw, err = net.DialTimeout("tcp", j.Addr, 10*time.Second)
					if err == nil {
						raw.Write([]byte{0x16, 3, 1})
					}
				} else {
					var cn *Conn
					if cn, err = dialer(); err == nil {
						raw = cn.c
						b := e.raw(id, "j8a.test")
						raw.Write(b[:len(b)-cut])
					}
				}
				if err == nil {
					mu.Lock()
					conns = append(conns, raw)
					mu.Unlock()
				}
			}()
		}
	}
	wg.Wait()
	time.Sleep(60 * time.Millisecond)
	probe := func(k string) Exch {
		e := Exch{Method: "GET", Ups: []UpResp{{Status: 200, Body: BodySpec{"text", 300, 9}}}}
		switch k {
		case "same":
			e.Target = "/a/hog"
		case "sibling":
			e.Target = "/sib"
		case "other":
			e.Target = "/b"
		case "post":
			e.Method, e.Target, e.Framing, e.Body = "POST", "/a", "cl", BodySpec{"text", 3000, 4}
		case "about", "nope", "dead":
			e.Target = "/" + k
		case "undefined":
			e.Target = "/un"
		case "hs":
			e.Target, e.Hdrs = "/hs", []HV{tok("HS256", []byte(hsSecret(0)), "k")}
		case "hsbad":
			e.Target, e.Hdrs = "/hs", []HV{tok("HS256", []byte(hsSecret(1)), "k")}
		case "jwks":
			e.Target, e.Hdrs = "/jwks", []HV{tok("RS256", rsaKeys[0], "k")}
		case "jwksbad":
			e.Target, e.Hdrs = "/jwks", []HV{tok("RS256", rsaKeys[2], "other")}
		case "policy":
			e.Target = "/pol"
		case "gzip":
			e.Target, e.Hdrs = "/a", []HV{{"Accept-Encoding", "gzip"}}
		case "up404":
			e.Target, e.Ups = "/a", []UpResp{{Status: 404}}
		case "big":
			e.Method, e.Target, e.Framing, e.Body = "PUT", "/b", "chunked", BodySpec{"rand", 250000, 4}
		}
		return e
	}
	wantSt := map[string]int{"about": 200, "nope": 404, "dead": 502, "undefined": 503, "hsbad": 401, "jwksbad": 401, "up404": 404}
	jobs := make(chan int)
	var pw sync.WaitGroup
	what := fmt.Sprintf("with %+v held up (TLS %v, poolSize %d, %d attempts)", c.Hogs, c.TLS, c.Pool, c.Max)
	for w := 0; w < c.Par; w++ {
		pw.Add(1)
		go func() {
			defer pw.Done()
			var cn *Conn
			defer func() {
				if cn != nil {
					cn.c.Close()
				}
			}()
			for i := range jobs {
				k := c.Probes[i]
				e := probe(k)
				id := hub.newID()
				hub.register(id, e.Ups)
				t0 := time.Now()
				var err error
				var d DownResp
				if cn == nil {
					cn, err = dialer()
				}
				if err == nil {
					cn.c.SetDeadline(time.Now().Add(20 * time.Second))
					if _, err = cn.c.Write(e.raw(id, "j8a.test")); err == nil {
						d = cn.read(e.Method)
						err = d.Err
					}
				}
				el := time.Since(t0)
				hub.take(id)
				mu.Lock()
				o.item(fmt.Sprint(c.Hogs, c.TLS, c.Pool, k), true, append([]string{"probe-" + k}, labels...)...)
				want := wantSt[k]
				if want == 0 {
					want = 200
				}
				switch {
				case err != nil:
					o.failf("%s, a request (%s, %s %s) was not answered within %v: %v", what, k, e.Method, e.Target, el.Round(time.Millisecond), err)
					o.Hang = true
				case d.Status != want:
					o.failf("%s, a request (%s, %s %s) got %s, want %d", what, k, e.Method, e.Target, d.brief(), want)
				case el > waitLimit:
					o.failf("%s, a request (%s, %s %s) was answered after %v", what, k, e.Method, e.Target, el.Round(time.Millisecond))
					o.Hang = true
				}
				stop := o.Viol != ""
				mu.Unlock()
				if err != nil || !c.KA || d.Close {
					if cn != nil {
						cn.c.Close()
					}
					cn = nil
				}
				if stop {
					for range jobs {
					}
					return
				}
			}
		}()
	}
	for i := range c.Probes {
		jobs <- i
	}
	close(jobs)
	pw.Wait()
	if s := j.stderr.String(); strings.Contains(s, "panic serving") {
		o.failf("%s: a handler panicked", what)
	}
	j.checkAlive(&o)
	return
}

func init() {
	register(&Prop{ID: "P33", Gen: genWaitCase, New: func() any { return &WaitCase{} }, Run: runWaitCase, NeedBB: true, Quick: 50, Shards: 4,
		Rule: "A case is a booted proxy with 1-150 connections or requests of 1-4 kinds that hang for at least 40 seconds (upstreams that stall at any point, do not accept or never shake hands, clients that stop in the header, body or TLS handshake or do not read, hanging key set endpoints) and 5-44 requests of 17 kinds sent while they do, by 1-24 clients. Each of those must get its right answer within 4 seconds; later counts only when a repetition of the case shows it again. Non-trivial: all."})
}
