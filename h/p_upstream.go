package main

import (
	"crypto/tls"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// ---- P28: upstream TLS ----

type UpTLSCase struct {
	Skip *bool
	Ups  []UpCert
	Reqs []UpTLSReq
	Max  int
	Par  int
	Jwks int // -1, or the server that provides a key set
	// non-empty: a key set server that is good at startup and has a certificate of this kind from then on
	Refresh string
}
type UpCert struct {
	Kind string
	RSA  bool
	Host string // 127.0.0.1 or localhost
	Sch  string // scheme as written
}
type UpTLSReq struct {
	Up int
	E  Exch
}

var upCertKinds = []string{"good", "good", "good", "goodinter", "tls12", "nointer", "wronghost", "expired", "future", "selfsigned", "otherca", "tls11", "clienteku", "cnonly", "plain"}

func (u UpCert) ok(skip bool) bool {
	if u.Kind == "plain" {
		return u.Sch == "http"
	}
	if u.Sch == "http" || u.Kind == "tls11" {
		return false
	}
	return skip || inList(u.Kind, "good", "goodinter", "tls12")
}

func genUpTLSCase(t *rapid.T) any {
	c := &UpTLSCase{Max: intR(t, "max", 1, 3), Par: rapid.SampledFrom([]int{1, 4, 8}).Draw(t, "par"), Jwks: -1}
	switch intR(t, "skip", 0, 3) {
	case 0:
		b := true
		c.Skip = &b
	case 1:
		b := false
		c.Skip = &b
	}
	c.Ups = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) UpCert {
		return UpCert{Kind: rapid.SampledFrom(upCertKinds).Draw(t, "kind"), RSA: rapid.Bool().Draw(t, "rsa"), Host: rapid.SampledFrom([]string{"localhost", "127.0.0.1"}).Draw(t, "host"),
			Sch: rapid.SampledFrom([]string{"https", "https", "https", "https://", "https", "http"}).Draw(t, "scheme")}
	}), 1, 5).Draw(t, "ups")
	c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) UpTLSReq {
		i := intR(t, "up", 0, len(c.Ups)-1)
		e := genReq(t, fmt.Sprintf("/u%d", i)+genPath(t, 2)+genQuery(t), 2)
		e.Ups = []UpResp{genUpOK(t, 2)}
		return UpTLSReq{i, e}
	}), 1, 14).Draw(t, "reqs")
	if chance(t, "jwks", 35) {
		c.Jwks = intR(t, "jwksup", 0, len(c.Ups)-1)
	}
	if chance(t, "refresh", 60) {
		c.Refresh = rapid.SampledFrom(upCertKinds[:len(upCertKinds)-1]).Draw(t, "refreshKind")
	}
	return c
}

// certFor makes the certificate of an upstream, and the root a client would have to trust.
func (u UpCert) conf(root CertSpec, rootDer []byte) (*tls.Config, error) {
	leaf := CertSpec{CN: "localhost", RSA: u.RSA, Key: 3, From: -day, To: 100 * day, DNS: []string{"localhost"}, IP: true, Serial: "11"}
	chain := []CertSpec{leaf, root}
	send := 1
	conf := &tls.Config{MinVersion: tls.VersionTLS12}
	switch u.Kind {
	case "goodinter", "nointer":
		chain = []CertSpec{leaf, {CN: "Up Inter", RSA: u.RSA, Key: 2, From: -2 * day, To: 200 * day, CA: true, Serial: "12"}, root}
		if u.Kind == "goodinter" {
			send = 2
		}
	case "tls12":
		conf.MaxVersion = tls.VersionTLS12
	case "tls11":
		conf.MinVersion, conf.MaxVersion = tls.VersionTLS10, tls.VersionTLS11
	case "wronghost":
		chain[0].CN, chain[0].DNS, chain[0].IP = "j8a.test", []string{"j8a.test", "localhost.j8a.test", "*.localhost"}, false
	case "expired":
		chain[0].From, chain[0].To = -100*day, -3600
	case "future":
		chain[0].From = 3600
	case "selfsigned":
		chain = chain[:1]
	case "otherca":
		chain[1].Key = 2
	case "clienteku":
		chain[0].EKU = "client"
	case "cnonly":
		chain[0].DNS, chain[0].IP = nil, false
	}
	ders, err := makeChain(chain, time.Now())
	if err != nil {
		return nil, err
	}
	conf.Certificates = []tls.Certificate{tlsCertOf(chain[0], ders[:send]...)}
	return conf, nil
}

func runUpTLSCase(env *Env, ci any) (o Outcome) {
	c := ci.(*UpTLSCase)
	skip := c.Skip != nil && *c.Skip
	root := CertSpec{CN: "Verif Root", Key: 1, From: -300 * day, To: 900 * day, CA: true, Serial: "01"}
	rd, err := makeChain([]CertSpec{root}, time.Now())
	must(err)
	hub := env.hub()
	cfg := Cfg{Resources: map[string][]CfgRes{}, Up: map[string]any{"maxAttempts": c.Max}}
	if c.Skip != nil {
		cfg.Up["tlsInsecureSkipVerify"] = *c.Skip
	}
	jwksURL := ""
	jwks := jwksDoc(jwkOf("RS256", 1, "k"))
	jwksHits := make(chan bool, 1000)
	for i, u := range c.Ups {
		conf, err := u.conf(root, rd[0])
		if err != nil {
			o.Infra = err.Error()
			return
		}
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			o.Infra = err.Error()
			return
		}
		defer ln.Close()
		name := fmt.Sprintf("tlsup%d", i)
		go func() {
			for {
				cn, err := ln.Accept()
				if err != nil {
					return
				}
				go func() {
					defer cn.Close()
					if u.Kind == "plain" {
						hub.serve(cn, name)
						return
					}
					tc := tls.Server(cn, conf)
					tc.SetDeadline(time.Now().Add(60 * time.Second))
					if tc.Handshake() != nil {
						return
					}
					tc.SetDeadline(time.Time{})
					hub.serve(tc, name)
				}()
			}
		}()
		port := ln.Addr().(*net.TCPAddr).Port
		cfg.Resources[fmt.Sprintf("u%d", i)] = []CfgRes{{Up: -1, Host: u.Host, Port: port, Scheme: u.Sch}}
		cfg.Routes = append(cfg.Routes, CfgRoute{Path: fmt.Sprintf("/u%d", i), Resource: fmt.Sprintf("u%d", i)})
	}
	so := startOpt{env: []string{"SSL_CERT_FILE=root.pem", "SSL_CERT_DIR=/nonexistent"}, files: map[string]string{"root.pem": chainPEM(rd[0])}}
	if c.Jwks >= 0 {
		u := c.Ups[c.Jwks]
		conf, err := u.conf(root, rd[0])
		must(err)
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			o.Infra = err.Error()
			return
		}
		defer ln.Close()
		jwksURL = fmt.Sprintf("https://%s:%d/keys", u.Host, ln.Addr().(*net.TCPAddr).Port)
		var l net.Listener = ln
		if u.Kind != "plain" {
			l = tls.NewListener(ln, conf)
		}
		srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			jwksHits <- true
			w.Write([]byte(jwks))
		}), ErrorLog: log.New(io.Discard, "", 0)}
		go srv.Serve(l)
		defer srv.Close()
		j := cfg
		j.Jwt = map[string]any{"j": map[string]any{"alg": "RS256", "jwksUrl": jwksURL}}
		j.Routes = append([]CfgRoute{}, cfg.Routes...)
		j.Routes[0].Jwt = "j"
		want := u.Kind != "plain" && UpCert{Kind: u.Kind, Sch: "https"}.ok(false)
		p, err := env.start(j, so)
		where := fmt.Sprintf("jwksUrl %s with certificate %q (RSA %v)", jwksURL, u.Kind, u.RSA)
		o.item("jwks "+fmt.Sprint(u, skip), true, "jwks-"+u.Kind)
		switch {
		case err == nil:
			p.stop()
			if !want {
				o.failf("%s: the proxy took its keys from there", where)
			}
		case err == errExited:
			if want {
				o.failf("%s: refused at startup: %s", where, trunc(p.stderr.String(), 600))
			}
		default:
			o.Infra = err.Error()
		}
		if len(jwksHits) > 0 && !want {
			o.failf("%s: a key set request was sent to it", where)
		}
		if o.Viol != "" || o.Infra != "" {
			return
		}
	}
	var rk *keyTLS
	if c.Refresh != "" {
		if rk, err = newKeyTLS(c.Refresh, root, rd[0]); err != nil {
			o.Infra = err.Error()
			return
		}
		defer rk.srv.Close()
		cfg.Jwt = map[string]any{"rk": map[string]any{"alg": "RS256", "jwksUrl": rk.url}}
		cfg.Resources["rk"] = []CfgRes{{Up: 0}}
		cfg.Routes = append(cfg.Routes, CfgRoute{Path: "/rk", Resource: "rk", Jwt: "rk"}, CfgRoute{Path: "/open", Resource: "rk"})
	}
	j := startOrFail(env, cfg, so, &o)
	if j == nil {
		return
	}
	defer j.stop()
	var xs []Exch
	for _, r := range c.Reqs {
		xs = append(xs, r.E)
	}
	if rk != nil {
		defer func() {
			if o.Viol == "" && o.Infra == "" {
				rk.check(env, j, &o, skip)
			}
		}()
	}
	for i, x := range env.runBatch(j, xs, c.Par, true) {
		u := c.Ups[c.Reqs[i].Up]
		where := fmt.Sprintf("%s %s to upstream %+v with tlsInsecureSkipVerify=%v", x.E.Method, x.E.Target, u, skip)
		o.item(fmt.Sprint(u, skip, x.E.Method, x.E.Body), true, "cert-"+u.Kind, fmt.Sprint("skip-", skip))
		if noResp(&o, x) {
			continue
		}
		if !u.ok(skip) {
			if len(x.Ups) > 0 {
				o.failf("%s: the request was sent to it", where)
			}
			errShape(&o, where, x.E, x.Resp, 502, false)
			continue
		}
		if len(x.Ups) != 1 {
			o.failf("%s: received %d requests; %s", where, len(x.Ups), x.Resp.brief())
			continue
		}
		checkUpReq(&o, x.E, x.E.Target, x.Ups[0])
		checkRespFidelity(&o, x, x.E.Ups[0])
	}
	finish(env, j, &o)
	return
}

// keyTLS is a key set server whose certificate (and key set) changes once.
type keyTLS struct {
	kind    string
	url     string
	srv     *http.Server
	mu      sync.Mutex
	changed bool
	hits    int // requests since the change
	hs      int // handshakes begun since the change
}

func newKeyTLS(kind string, root CertSpec, rootDer []byte) (*keyTLS, error) {
	k := &keyTLS{kind: kind}
	good, err := UpCert{Kind: "good", Host: "localhost"}.conf(root, rootDer)
	if err != nil {
		return nil, err
	}
	next, err := UpCert{Kind: kind, Host: "localhost"}.conf(root, rootDer)
	if err != nil {
		return nil, err
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	k.url = fmt.Sprintf("https://localhost:%d/keys", ln.Addr().(*net.TCPAddr).Port)
	conf := &tls.Config{GetConfigForClient: func(*tls.ClientHelloInfo) (*tls.Config, error) {
		k.mu.Lock()
		defer k.mu.Unlock()
		if !k.changed {
			return good, nil
		}
		k.hs++
		return next, nil
	}}
	k.srv = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		k.mu.Lock()
		ch := k.changed
		if ch {
			k.hits++
		}
		k.mu.Unlock()
		w.Header().Set("Connection", "close")
		if ch {
			w.Write([]byte(jwksDoc(jwkOf("RS256", 2, "new"))))
		} else {
			w.Write([]byte(jwksDoc(jwkOf("RS256", 1, "old"))))
		}
	}), ErrorLog: log.New(io.Discard, "", 0)}
	k.srv.SetKeepAlivesEnabled(false)
	go k.srv.Serve(tls.NewListener(ln, conf))
	return k, nil
}

func (k *keyTLS) check(env *Env, j *J8a, o *Outcome, skip bool) {
	k.mu.Lock()
	k.changed = true
	k.mu.Unlock()
	use := func(kid string, key int) XR {
		tok := mkToken(map[string]any{"alg": "RS256", "kid": kid}, map[string]any{"sub": "x"}, "RS256", privKey("RS256", key))
		return env.runBatch(j, []Exch{{Method: "GET", Target: "/rk", Hdrs: []HV{{"Authorization", "Bearer " + tok}}, Ups: []UpResp{{Status: 200}}}}, 1, true)[0]
	}
	where := fmt.Sprintf("key set server that changed to certificate %q after startup, tlsInsecureSkipVerify=%v", k.kind, skip)
	o.item("refresh "+k.kind+fmt.Sprint(skip), true, "refresh-"+k.kind)
	if x := use("old", 1); !noResp(o, x) && x.Resp.Status != 200 {
		o.failf("%s: token with the key of startup: %s", where, x.Resp.brief())
		return
	}
	trusted := UpCert{Kind: k.kind, Sch: "https"}.ok(false)
	for i := 0; i < 150; i++ {
		x := use("new", 2)
		if noResp(o, x) {
			return
		}
		k.mu.Lock()
		hs, hits := k.hs, k.hits
		k.mu.Unlock()
		if !trusted {
			if hits > 0 {
				o.failf("%s: the key set was fetched from there", where)
				return
			}
			if x.Resp.Status != 401 {
				o.failf("%s: token signed by the key published there: %s", where, x.Resp.brief())
				return
			}
			if hs > 0 && i > 8 {
				return
			}
		} else if x.Resp.Status == 200 {
			return
		}
		time.Sleep(time.Duration(5+i) * time.Millisecond)
	}
	if trusted {
		o.failf("%s: the key published there is not accepted seconds later", where)
		o.Hang = true
	}
}

func init() {
	register(&Prop{ID: "P28", Gen: genUpTLSCase, New: func() any { return &UpTLSCase{} }, Run: runUpTLSCase, NeedBB: true, Quick: 100, Shards: 6,
		Rule: "A case is a proxy with 1-5 upstreams behind TLS listeners with certificates of 14 kinds (trusted, with and without intermediate, wrong host, expired, not yet valid, self-signed, foreign CA, old protocol, wrong usage, no SAN, plain text), tlsInsecureSkipVerify true, false or absent, and up to 14 requests; one in three also boots with a key set URL on such a server, and half refresh their keys from a server whose certificate changes after startup. Requests must arrive unaltered at acceptable upstreams, and not a byte of them at others, which answer 502. Non-trivial: all."})
}
