package main

import (
	"fmt"
	"math"
	"strings"

	"pgregory.net/rapid"
)

// ---- P14: policies ----

type PolMap struct {
	Labels []string
	Up     int
}
type PolRoute struct {
	Policy   string // may be "", "default" or undefined
	Resource int
}
type PolCase struct {
	IP       bool
	Policies map[string][]CfgLW
	Res      [][]PolMap
	Routes   []PolRoute
	Reqs     []PolReq
	Rep      int
	Par      int
	Same     []HV   // headers every request has: what a client keeps does not bind the choice
	Host     string // likewise
	KA       bool
	N, G     int
}
type PolReq struct {
	Route int    // -1: unmatched, -2: about
	Fail  int    // first attempts failing
	M     string // method
}

var polLabels = []string{"green", "blue", "red", "v1", "v2", "canary", "default", "Green"}

func genLWs(t *rapid.T) []CfgLW {
	n := intR(t, "nlabels", 1, 5)
	var out []CfgLW
	// weights are hundredths, thousandths or ten-thousandths that sum to at most 1
	unit := rapid.SampledFrom([]int{100, 100, 1000, 10000}).Draw(t, "unit")
	left := unit
	for i := 0; i < n; i++ {
		w := 0
		switch k := intR(t, "wk", 0, 5); {
		case k == 0:
		case k == 1:
			w = left
		case k == 2 && i > 0: // equal weights
			w = int(math.Round(out[i-1].Weight * float64(unit)))
		case k == 3: // a sliver
			w = intR(t, "sliver", 0, 9)
		default:
			w = intR(t, "w", 0, left)
		}
		if w > left {
			w = left
		}
		left -= w
		out = append(out, CfgLW{Label: rapid.SampledFrom(polLabels).Draw(t, "label"), Weight: float64(w) / float64(unit)})
	}
	if left > 0 && chance(t, "fill", 85) {
		i := intR(t, "filli", 0, n-1)
		out[i].Weight = math.Round(out[i].Weight*float64(unit)+float64(left)) / float64(unit)
	}
	// order of declaration varies
	if chance(t, "rot", 50) {
		k := intR(t, "rotk", 0, n-1)
		out = append(out[k:], out[:k]...)
	}
	return out
}

// labelDist is the reference: label -> probability; what the weights leave goes to "default".
func labelDist(p []CfgLW) map[string]float64 {
	m := map[string]float64{}
	s := 0.0
	for _, lw := range p {
		if lw.Weight > 0 {
			m[lw.Label] += lw.Weight
		}
		s += lw.Weight
	}
	if s < 1-1e-9 {
		m["default"] += 1 - s
	}
	return m
}

// tailBound is a rigorous (Chernoff) bound on seeing a fraction as far from p as k/n in n independent draws.
func tailBound(n, k int, p float64) float64 {
	if n == 0 {
		return 1
	}
	q := float64(k) / float64(n)
	kl := 0.0
	if q > 0 {
		if p <= 0 {
			return 0
		}
		kl += q * math.Log(q/p)
	}
	if q < 1 {
		if p >= 1 {
			if 1-p > -1e-9 && q > 1-1e-12 {
				return 1
			}
			return 0
		}
		kl += (1 - q) * math.Log((1-q)/(1-p))
	}
	return math.Exp(-float64(n) * kl)
}

const tailAlarm = 1e-13

func judgeDist(o *Outcome, where string, count map[string]int, want map[string]float64) {
	n := 0
	for _, k := range count {
		n += k
	}
	for l := range count {
		if want[l] <= 0 {
			o.failf("%s: %q chosen %d times of %d, its weight is 0", where, l, count[l], n)
			return
		}
	}
	for l, p := range want {
		if p > 1-1e-9 {
			p = 1
		}
		if b := tailBound(n, count[l], p); b < tailAlarm {
			o.failf("%s: %q chosen %d times of %d, configured share %.3f (probability below %.0e)", where, l, count[l], n, p, tailAlarm)
		}
	}
}

func genPolCase(t *rapid.T) any {
	c := &PolCase{IP: chance(t, "ip", 50), Policies: map[string][]CfgLW{}}
	np := intR(t, "np", 1, 3)
	if c.IP {
		np = 1
	}
	for i := 0; i < np; i++ {
		c.Policies[fmt.Sprintf("p%d", i)] = genLWs(t)
	}
	if !c.IP && chance(t, "owndefault", 30) {
		c.Policies["default"] = genLWs(t)
	}
	if c.IP {
		c.G = rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "g")
		c.N = rapid.SampledFrom([]int{2000, 2000, 20000}).Draw(t, "n")
		return c
	}
	nr := intR(t, "nr", 1, 3)
	for i := 0; i < nr; i++ {
		nm := intR(t, "nm", 1, 5)
		var ms []PolMap
		for k := 0; k < nm; k++ {
			m := PolMap{Up: intR(t, "up", 0, 5)}
			nl := intR(t, "nl", 0, 3)
			for x := 0; x < nl; x++ {
				m.Labels = append(m.Labels, rapid.SampledFrom(polLabels).Draw(t, "rl"))
			}
			ms = append(ms, m)
		}
		// usually every label is there
		if chance(t, "complete", 70) {
			for _, l := range polLabels {
				have := false
				for _, m := range ms {
					for _, x := range m.Labels {
						have = have || x == l
					}
				}
				if !have {
					i := intR(t, "addto", 0, len(ms)-1)
					ms[i].Labels = append(ms[i].Labels, l)
				}
			}
		}
		c.Res = append(c.Res, ms)
	}
	nro := intR(t, "nro", 1, 4)
	for i := 0; i < nro; i++ {
		c.Routes = append(c.Routes, PolRoute{Policy: rapid.SampledFrom([]string{"p0", "p0", "p1", "p2", "", "default", "default", "undefined"}).Draw(t, "rp"), Resource: intR(t, "rr", 0, nr-1)})
		if p := c.Routes[i].Policy; strings.HasPrefix(p, "p") && c.Policies[p] == nil {
			c.Routes[i].Policy = "p0"
		}
	}
	c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) PolReq {
		r := PolReq{Route: intR(t, "route", -2, nro-1), M: rapid.SampledFrom([]string{"GET", "POST", "PUT"}).Draw(t, "m")}
		if r.Route >= 0 && r.M != "POST" && chance(t, "fail", 20) {
			r.Fail = intR(t, "nfail", 1, 2)
		}
		return r
	}), 1, 12).Draw(t, "reqs")
	c.Rep = rapid.SampledFrom([]int{1, 10, 60, 100, 150}).Draw(t, "rep")
	c.Par = rapid.SampledFrom([]int{1, 4, 16}).Draw(t, "par")
	c.KA = chance(t, "ka", 70)
	if chance(t, "power", 50) { // every label of even weights has an upstream of its own, most requests go there
		c.Rep = rapid.SampledFrom([]int{60, 100, 150}).Draw(t, "prep")
		ws := rapid.SampledFrom([][]float64{{0.5, 0.5}, {0.3, 0.7}, {0.2, 0.3, 0.5}, {0.25, 0.25, 0.25, 0.25}, {0.6, 0.4}, {0.34, 0.33, 0.33}, {0.1, 0.2, 0.3, 0.4}, {0.5, 0.25}}).Draw(t, "pws")
		var p []CfgLW
		var ms []PolMap
		for i, w := range ws {
			p = append(p, CfgLW{Label: polLabels[i], Weight: w})
			ms = append(ms, PolMap{Up: i, Labels: []string{polLabels[i]}})
		}
		c.Policies["p0"], c.Res[0] = p, ms
		c.Routes[0] = PolRoute{Policy: "p0"}
		for i := range c.Reqs {
			if i%2 == 0 {
				c.Reqs[i].Route = 0
			}
		}
	}
	c.Host = genHost(t)
	for _, h := range []HV{{"X-Request-Id", rapid.SampledFrom([]string{"req-1", "batch-7", "a", "0123456789abcdef"}).Draw(t, "sameid")}, {"Cookie", "session=abc; j8a=green"}, {"User-Agent", "agent/1"}, {"X-Forwarded-For", "10.1.2.3"}, {"Authorization", "Basic dXNlcjpwYXNz"}, {"X-Session-Id", "s1"}, {"X-User", "joe"}, {"X-Canary", "always"}, {"X-Policy-Label", "blue"}, {"X-Real-Ip", "10.9.8.7"}, {"Etag", "x"}, {"X-B3-Traceid", "80f198ee56343ba864fe8b2a57d3eff7"}, {"Traceparent", "00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01"}} {
		if chance(t, "same", 40) {
			c.Same = append(c.Same, h)
		}
	}
	return c
}

func runPolCase(env *Env, ci any) (o Outcome) {
	c := ci.(*PolCase)
	if c.IP {
		p := c.Policies["p0"]
		var res struct {
			Count, Pairs map[string]int
			After        []CfgLW
		}
		in := map[string]any{"P": p, "N": c.N, "G": c.G}
		if !env.ipRun(&o, "labels", in, &res) {
			return
		}
		dist := labelDist(p)
		where := fmt.Sprintf("policy %v resolved %d times by %d goroutines", p, c.N*c.G, c.G)
		o.item(fmt.Sprint(p, c.G), len(p) > 1, fmt.Sprintf("labels-%d", len(p)), fmt.Sprintf("goroutines-%d", c.G))
		judgeDist(&o, where, res.Count, dist)
		pd := map[string]float64{}
		for a, x := range dist {
			for b, y := range dist {
				pd[a+"|"+b] += x * y
			}
		}
		if o.Viol == "" {
			judgeDist(&o, where+", pairs of consecutive choices", res.Pairs, pd)
		}
		for i := range p {
			if i >= len(res.After) || res.After[i] != p[i] {
				o.failf("%s: the shared policy changed to %v", where, res.After)
				break
			}
		}
		return
	}
	cfg := Cfg{Resources: map[string][]CfgRes{}, Policies: c.Policies, Up: map[string]any{"maxAttempts": 3}}
	for i, ms := range c.Res {
		var rs []CfgRes
		for _, m := range ms {
			rs = append(rs, CfgRes{Up: m.Up, Labels: m.Labels})
		}
		cfg.Resources[fmt.Sprintf("r%d", i)] = rs
	}
	for i, r := range c.Routes {
		cfg.Routes = append(cfg.Routes, CfgRoute{Path: fmt.Sprintf("/q%d", i), Resource: fmt.Sprintf("r%d", r.Resource), Policy: r.Policy})
	}
	cfg.Routes = append(cfg.Routes, CfgRoute{Path: "/about", Resource: "about"})
	j := startOrFail(env, cfg, startOpt{}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	var xs []Exch
	var rq []PolReq
	for k := 0; k < c.Rep; k++ {
		for _, r := range c.Reqs {
			e := Exch{Method: r.M, Target: "/nothing", Host: c.Host, Hdrs: c.Same}
			if r.Route == -2 {
				e.Target = "/about"
			} else if r.Route >= 0 {
				e.Target = fmt.Sprintf("/q%d", r.Route)
			}
			if r.M != "GET" {
				e.Framing = "cl"
			}
			for f := 0; f < r.Fail; f++ {
				e.Ups = append(e.Ups, UpResp{Status: 503, Close: true})
			}
			e.Ups = append(e.Ups, UpResp{Status: 200, Body: BodySpec{"text", 5, 1}})
			xs = append(xs, e)
			rq = append(rq, r)
		}
	}
	counts := map[int]map[string]int{}
	dists := map[int]map[string]float64{}
	outcome := func(r PolRoute, label string) string {
		for _, m := range c.Res[r.Resource] {
			for _, l := range m.Labels {
				if l == label {
					return fmt.Sprintf("up%d", m.Up)
				}
			}
		}
		return "503"
	}
	for i, r := range c.Routes {
		d := map[string]float64{}
		var ld map[string]float64
		switch r.Policy {
		case "":
			d[fmt.Sprintf("up%d", c.Res[r.Resource][0].Up)] = 1
		default: // a policy that is not configured sends everything to the label default
			ld = map[string]float64{"default": 1}
			if p := c.Policies[r.Policy]; p != nil {
				ld = labelDist(p)
			}
		}
		for l, p := range ld {
			d[outcome(r, l)] += p
		}
		dists[i] = d
		counts[i] = map[string]int{}
	}
	for i, x := range env.runBatch(j, xs, c.Par, c.KA) {
		r := rq[i]
		if noResp(&o, x) {
			continue
		}
		if r.Route < 0 {
			continue
		}
		where := fmt.Sprintf("%s %s (route %+v)", x.E.Method, x.E.Target, c.Routes[r.Route])
		got := ""
		switch {
		case len(x.Ups) == 0 && x.Resp.Status == 503:
			got = "503"
		case len(x.Ups) == 1+r.Fail && x.Resp.Status == 200:
			got = x.Ups[0].Server
			for _, u := range x.Ups {
				if u.Server != got {
					o.failf("%s: attempts went to %s and %s", where, got, u.Server)
				}
			}
		default:
			o.failf("%s: %d upstream calls (want %d) and %s", where, len(x.Ups), 1+r.Fail, x.Resp.brief())
			continue
		}
		counts[r.Route][got]++
		o.item(fmt.Sprint(c.Policies, c.Res, c.Routes[r.Route], r), c.Routes[r.Route].Policy != "", "policy-"+c.Routes[r.Route].Policy, "to-"+got)
	}
	for i := range c.Routes {
		judgeDist(&o, fmt.Sprintf("route %+v, policy %v, resource %+v, %d at a time", c.Routes[i], c.Policies[c.Routes[i].Policy], c.Res[c.Routes[i].Resource], c.Par), counts[i], dists[i])
	}
	finish(env, j, &o)
	return
}

func init() {
	register(&Prop{ID: "P14", Gen: genPolCase, New: func() any { return &PolCase{} }, Run: runPolCase, NeedBB: true, NeedIP: true, Race: true, Quick: 60, Shards: 6,
		Rule:   "A case is either 1-3 generated policies (one of them possibly named default; labels with repeated, zero and equal weights, sums up to 1) booted with 1-3 resources of labelled mappings and up to 1800 requests from 1-16 clients, interleaved with errors, about requests and failing attempts, or one policy resolved 2000-20000 times by each of 1-8 goroutines; shares of the upstreams reached (and of pairs of consecutive choices) are compared with the configured weights by a Chernoff bound (alarm below 1e-13), weight-0 labels must never be chosen, absent labels give 503, all attempts of a request go to one upstream, and the policy must not change. Non-trivial: route with a policy, or several labels.",
		Assume: []string{"weights are between 0 and 1 and sum to at most 1"}})
}
