package main

import (
	"bytes"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// ---- P01: routing ----

type RouteCase struct {
	Cfg  Cfg
	Reqs []Exch
}

var genRoutePath = rapid.Custom(func(t *rapid.T) string {
	n := rapid.IntRange(1, 3).Draw(t, "rn")
	if chance(t, "rdeep", 8) {
		n = rapid.IntRange(4, 12).Draw(t, "rndeep")
	}
	p := ""
	for i := 0; i < n; i++ {
		p += "/" + rapid.SampledFrom([]string{"a", "b", "ab", "abc", "v1", "users", "todos", "x-y", "z_z", "~me", "A", "%20", "a%2Fb", "x,y", "x;y", "k=v", "a@b", "a!", "a:b", "1", "00"}).Draw(t, "rs")
	}
	if chance(t, "rlong", 5) {
		p += strings.Repeat("l", rapid.SampledFrom([]int{16, 32, 64, 100, 128, 256, 500}).Draw(t, "rlongn"))
	}
	if rapid.IntRange(0, 2).Draw(t, "rslash") == 0 {
		p += "/"
	}
	return p
})

func genRouteCase(t *rapid.T) any {
	n := rapid.IntRange(1, 9).Draw(t, "routes")
	if chance(t, "manyroutes", 20) {
		n = rapid.IntRange(10, 60).Draw(t, "routes2")
	}
	seen := map[string]bool{}
	c := &RouteCase{}
	c.Cfg.Resources = map[string][]CfgRes{}
	var paths []string
	for i := 0; i < n; i++ {
		var p string
		switch rapid.IntRange(0, 5).Draw(t, "rk") {
		case 0:
			p = "/"
		case 1, 2:
			if len(paths) > 0 { // nest below / next to an existing path
				b := paths[rapid.IntRange(0, len(paths)-1).Draw(t, "base")]
				p = strings.TrimSuffix(b, "/") + rapid.SampledFrom([]string{"/", "/a", "b", "/v1", "/users/", "x"}).Draw(t, "ext")
				if p[0] != '/' {
					p = "/" + p
				}
			} else {
				p = genRoutePath.Draw(t, "rp")
			}
		default:
			p = genRoutePath.Draw(t, "rp")
		}
		if seen[p] {
			continue
		}
		seen[p] = true
		paths = append(paths, p)
		cp := p
		if rapid.IntRange(0, 5).Draw(t, "noslash") == 0 && len(p) > 1 {
			cp = p[1:] // documented behaviour: paths get a leading slash
		}
		res := fmt.Sprintf("r%d", len(paths)-1)
		if chance(t, "about", 8) {
			c.Cfg.Routes = append(c.Cfg.Routes, CfgRoute{Path: cp, Resource: "about"})
			continue
		}
		c.Cfg.Routes = append(c.Cfg.Routes, CfgRoute{Path: cp, Resource: res})
		c.Cfg.Resources[res] = []CfgRes{{Up: rapid.IntRange(0, 5).Draw(t, "up")}}
	}
	lo, hi := many(t, 1, 30)
	c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Exch {
		var tgt string
		if rapid.IntRange(0, 4).Draw(t, "tk") > 0 {
			p := paths[rapid.IntRange(0, len(paths)-1).Draw(t, "tp")]
			switch rapid.IntRange(0, 6).Draw(t, "tm") {
			case 0:
				tgt = p
			case 1:
				tgt = strings.TrimSuffix(p, "/")
			case 2:
				tgt = strings.TrimSuffix(p, "/") + genPath(t, 2)
			case 3:
				tgt = p + rapid.SampledFrom([]string{"a", "b", "x", "1", "bc", "x%2Fy"}).Draw(t, "sfx")
			case 4:
				tgt = genPath(t, 1) + strings.TrimPrefix(p, "/") // the route path not at the start
				if strings.Contains(tgt, "//") {
					tgt = p
				}
			case 5: // case change
				tgt = strings.ToUpper(p)
			default:
				tgt = p[:rapid.IntRange(1, len(p)).Draw(t, "cut")]
				if k := strings.LastIndexByte(tgt, '%'); k >= 0 && k > len(tgt)-3 {
					tgt = tgt[:k] // no broken escapes
				}
			}
		} else {
			tgt = genPath(t, 3)
		}
		if tgt == "" {
			tgt = "/"
		}
		tgt += rapid.SampledFrom([]string{"", "", "", "?q=1", "?/users/a", "?x=/todos"}).Draw(t, "q")
		return Exch{Abs: genAbs(t), Method: rapid.SampledFrom([]string{"GET", "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS"}).Draw(t, "method"), Target: tgt,
			Ups: []UpResp{{Status: 200, Body: BodySpec{"text", 20, 1}}}}
	}), lo, hi).Draw(t, "reqs")
	return c
}

func normPath(p string) string {
	if !strings.HasPrefix(p, "/") {
		return "/" + p
	}
	return p
}

// longestMatch is the reference router.
func longestMatch(cfg Cfg, target string) int {
	best := -1
	for i, r := range cfg.Routes {
		p := normPath(r.Path)
		if strings.HasPrefix(target, p) && (best < 0 || len(p) > len(normPath(cfg.Routes[best].Path))) {
			best = i
		}
	}
	return best
}

func runRouteCase(env *Env, ci any) (o Outcome) {
	c := ci.(*RouteCase)
	j, err := env.start(c.Cfg, startOpt{})
	if err == errExited {
		o.failf("valid configuration refused: %s", trunc(j.stderr.String(), 800))
		return
	}
	if err != nil {
		o.Infra = err.Error()
		return
	}
	defer j.stop()
	for _, x := range env.runBatch(j, c.Reqs, 4, true) {
		exp := longestMatch(c.Cfg, x.E.Target)
		matching := 0
		for _, r := range c.Cfg.Routes {
			if strings.HasPrefix(x.E.Target, normPath(r.Path)) {
				matching++
			}
		}
		lab := "unmatched"
		if matching == 1 {
			lab = "one-match"
		} else if matching > 1 {
			lab = "nested-matches"
		}
		o.item(fmt.Sprint(c.Cfg.Routes, x.E.Method, x.E.Target), matching != 1 || len(c.Cfg.Routes) > 1, lab)
		if x.Resp.Err != nil {
			o.failf("%s %s: %s", x.E.Method, x.E.Target, x.Resp.brief())
			o.Hang = o.Hang || x.Resp.Hang
			continue
		}
		if exp < 0 {
			if x.Resp.Status != 404 || len(x.Ups) != 0 {
				o.failf("%s %s matches no route: want 404 and no upstream call, got %s and %d upstream calls (routes %+v)", x.E.Method, x.E.Target, x.Resp.brief(), len(x.Ups), c.Cfg.Routes)
			}
			continue
		}
		if c.Cfg.Routes[exp].Resource == "about" {
			b, err := decoded(x.Resp)
			if len(x.Ups) > 0 || x.Resp.Status != 200 || err != nil || x.E.Method != "HEAD" && (!bytes.Contains(b, []byte("ServerID")) || bytes.Contains(b, []byte("Code"))) {
				o.failf("%s %s: longest matching route is %q to the about resource, got %d upstream calls and %s (routes %+v)", x.E.Method, x.E.Target, c.Cfg.Routes[exp].Path, len(x.Ups), x.Resp.brief(), c.Cfg.Routes)
			}
			continue
		}
		want := fmt.Sprintf("up%d", c.Cfg.Resources[c.Cfg.Routes[exp].Resource][0].Up)
		if len(x.Ups) != 1 || x.Ups[0].Server != want || x.Resp.Status != 200 {
			got := "none"
			if len(x.Ups) > 0 {
				got = x.Ups[0].Server
			}
			o.failf("%s %s: longest matching route is %q -> %s, but %d upstream calls, first to %s; %s (routes %+v)", x.E.Method, x.E.Target, c.Cfg.Routes[exp].Path, want, len(x.Ups), got, x.Resp.brief(), c.Cfg.Routes)
		}
	}
	if orp := env.hub().takeOrphans(); len(orp) > 0 {
		o.failf("upstream %s received a request that lost its %s header: %s %s %v", orp[0].Server, idHeader, orp[0].Method, orp[0].URI, orp[0].Hdr)
	}
	j.checkAlive(&o)
	return
}

func init() {
	register(&Prop{ID: "P01", Gen: genRouteCase, New: func() any { return &RouteCase{} }, Run: runRouteCase, NeedBB: true, Quick: 500, Shards: 6,
		Rule: "A case is a configuration (1-60 literal route paths, many nested, up to 12 segments and 500 characters long, some without leading slash, in generated order) booted in the real binary plus 4-24 requests aimed at, below, beside and outside the routes; one evaluation is one request. Non-trivial: several routes configured, or the target matches none or more than one route."})
}
