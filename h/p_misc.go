package main

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strings"

	"pgregory.net/rapid"
)

// ---- P21: memory growth history ----

const histMax = 24

type HistCase struct {
	Start []uint64
	Rss   []uint64
	Stats *StatsCase `json:",omitempty"`
}

// the samplers as the server starts them, over simulated hours
type StatsCase struct {
	Pid      int
	TotalKB  uint64
	Rss, Vms []uint64 // pages, hour by hour
}
type histStep struct {
	Len, Cap int
	V        []float64
	High     []bool
	Lines    []string
	Rss      []uint64
}

func genHistCase(t *rapid.T) any {
	c := &HistCase{}
	if chance(t, "daemon", 2) {
		st := &StatsCase{Pid: rapid.SampledFrom([]int{1, 2, 77, 4711, 1 << 22}).Draw(t, "pid"), TotalKB: rapid.SampledFrom([]uint64{1000000, 32 << 20, 1 << 30}).Draw(t, "total")}
		base := rapid.SampledFrom([]uint64{3, 100, 4999, 70000}).Draw(t, "pages")
		n := intR(t, "hours", 2, 60)
		level := uint64(100)
		for i := 0; i < n; i++ {
			if chance(t, "change", 25) {
				level = rapid.SampledFrom([]uint64{50, 99, 100, 100, 120, 150, 199, 200, 200, 201, 300, 400}).Draw(t, "level")
			}
			st.Rss = append(st.Rss, max(1, base*level/100))
			st.Vms = append(st.Vms, base*3+uint64(i))
		}
		c.Stats = st
		return c
	}
	base := rapid.SampledFrom([]uint64{1, 2, 3, 4096, 10 << 20, 1 << 34, 1<<40 + 1}).Draw(t, "base")
	val := rapid.Custom(func(t *rapid.T) uint64 {
		f := rapid.SampledFrom([]float64{1, 1, 1, 1.01, 1.2, 1.5, 1.9, 1.99, 2, 2, 2.01, 3, 10, 0.5, 0.4}).Draw(t, "factor")
		v := uint64(float64(base) * f)
		v += rapid.SampledFrom([]uint64{0, 0, 1}).Draw(t, "plus")
		if chance(t, "minus", 20) && v > 1 {
			v--
		}
		if v == 0 {
			v = 1
		}
		return v
	})
	switch intR(t, "startkind", 0, 2) {
	case 0: // as the process starts
		v := val.Draw(t, "s0")
		for i := 0; i < histMax; i++ {
			c.Start = append(c.Start, v)
		}
	case 1:
		for i := 0; i < histMax; i++ {
			c.Start = append(c.Start, 0)
		}
	case 2:
		c.Start = rapid.SliceOfN(val, 0, histMax).Draw(t, "sv")
	}
	n := intR(t, "n", 1, 80)
	c.Rss = rapid.SliceOfN(val, n, n).Draw(t, "rss")
	return c
}

func runHistCase(env *Env, ci any) (o Outcome) {
	c := ci.(*HistCase)
	if c.Stats != nil {
		return runStatsCase(env, c.Stats)
	}
	var got []histStep
	if !env.ipRun(&o, "hist", c, &got) {
		return
	}
	h := append([]uint64{}, c.Start...)
	for i, st := range got {
		h = append(h, c.Rss[i])
		if len(h) > histMax {
			h = h[len(h)-histMax:]
		}
		where := fmt.Sprintf("after sample %d of %v following %v", i+1, c.Rss, c.Start)
		if fmt.Sprint(st.Rss) != fmt.Sprint(h) {
			o.failf("%s: history is %v, want the last %d samples %v", where, st.Rss, histMax, h)
			return
		}
		if st.Cap > 2*histMax {
			o.failf("%s: history holds memory for %d samples", where, st.Cap)
		}
		full := true
		for _, v := range h {
			full = full && v > 0
		}
		high := false
		for k, v := range h {
			w := 0.0
			if full {
				w = float64(v) / float64(h[0])
			}
			if k >= len(st.V) || math.Abs(st.V[k]-w) > 1e-12*w || st.High[k] != (w >= 2) {
				o.failf("%s: growth rates %v (high %v), history %v", where, st.V, st.High, h)
				return
			}
			high = high || w >= 2
		}
		n := 0
		for _, l := range st.Lines {
			if strings.Contains(l, "memory increase") {
				n++
			}
		}
		if n != map[bool]int{true: 1, false: 0}[high] {
			o.failf("%s: memory at least doubled within the history: %v, but %d log lines say so (history %v)", where, high, n, h)
			return
		}
		o.item(fmt.Sprint(h), full, fmt.Sprint("full-", full), fmt.Sprint("high-", high))
	}
	return
}

func runStatsCase(env *Env, c *StatsCase) (o Outcome) {
	var res struct {
		Ev []struct {
			At   int64
			Line string
		}
		Stuck bool // simulated time got stuck, what there is is a beginning
	}
	if !env.ipRun(&o, "stats", c, &res) {
		return
	}
	page := uint64(os.Getpagesize())
	rise := map[int64]int{}
	last, n := int64(-100), 0
	for _, e := range res.Ev {
		var m map[string]any
		d := json.NewDecoder(strings.NewReader(e.Line))
		d.UseNumber()
		if err := d.Decode(&m); err != nil {
			o.failf("log line is no JSON: %s", e.Line)
			return
		}
		msg, _ := m["message"].(string)
		switch {
		case strings.Contains(msg, "memory increase"):
			rise[e.At]++
		case strings.Contains(msg, "server performance"):
			k := min(int((e.At+1799)/3600), len(c.Rss)-1)
			if n > 0 && (e.At-last < 55 || e.At-last > 70) || n == 0 && e.At > 10 {
				o.failf("performance was logged at %d s and then at %d s, want every minute", last, e.At)
				return
			}
			last, n = e.At, n+1
			want := []string{fmt.Sprint(c.Pid), fmt.Sprint(c.Rss[k] * page), fmt.Sprint(c.Vms[k] * page), fmt.Sprintf("%.2f", 100*float32(c.Rss[k]*page)/float32(c.TotalKB*1024)), "0"}
			got := []string{fmt.Sprint(m["pid"]), fmt.Sprint(m["rssBytes"]), fmt.Sprint(m["vmsBytes"]), fmt.Sprint(m["memPct"]), fmt.Sprint(m["swapBytes"])}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				o.failf("at %d s performance was logged as %s, want pid, rss, vms, memory share and swap %v (memory by the hour: %+v)", e.At, e.Line, want, *c)
				return
			}
		}
	}
	if res.Stuck {
		return
	}
	end := int64(len(c.Rss))*3600 - 1800
	if end-last > 70 {
		o.failf("performance was logged %d times up to %d s and then no more until %d s", n, last, end)
		return
	}
	h := []uint64{}
	for i := 0; i < histMax; i++ {
		h = append(h, c.Rss[0])
	}
	for j := 1; int64(j)*3600 < end; j++ {
		h = append(h[1:], c.Rss[j-1]) // the sample of the hour before
		want := 0
		for _, v := range h {
			if float64(v)/float64(h[0]) >= 2 {
				want = 1
			}
		}
		got := 0
		for s := int64(-60); s <= 60; s++ {
			got += rise[int64(j)*3600+s]
			delete(rise, int64(j)*3600+s)
		}
		if got != want {
			o.failf("after %d hours the last %d samples are %v pages: %d lines announce a rise, want %d", j, histMax, h, got, want)
			return
		}
		o.item(fmt.Sprint(h), true, "daemon", fmt.Sprint("high-", want == 1))
	}
	if len(rise) > 0 {
		o.failf("rises announced at odd times: %v", rise)
	}
	return
}

// ---- P24: gzip ----

type ZipCase struct {
	Par int
	Ops []ZipOp
}
type ZipOp struct {
	Body  BodySpec
	Kind  string // gzip, gunzip, trunc, garble, random
	Level int
	Parts int    // members
	Name  string // gzip header fields
	Extra int
	At    int
}

func (z ZipOp) in() []byte {
	b := z.Body.bytes()
	if z.Kind == "gzip" {
		return b
	}
	var out bytes.Buffer
	for i := 0; i < z.Parts; i++ {
		w, err := gzip.NewWriterLevel(&out, z.Level)
		must(err)
		if i == 0 {
			w.Name, w.Comment = z.Name, z.Name
			if z.Extra > 0 {
				w.Extra = bytes.Repeat([]byte{7}, z.Extra)
			}
		}
		p := b[i*len(b)/z.Parts : (i+1)*len(b)/z.Parts]
		w.Write(p[:len(p)/2])
		if z.At%2 == 1 {
			w.Flush()
		}
		w.Write(p[len(p)/2:])
		w.Close()
	}
	g := out.Bytes()
	switch z.Kind {
	case "trunc":
		g = g[:z.At%len(g)]
	case "garble":
		g[z.At%len(g)] ^= byte(1 + z.At%255)
	case "random":
		g = BodySpec{"rand", z.Body.Size % 500, z.Body.Seed}.bytes()
	}
	return g
}

func genZipCase(t *rapid.T) any {
	c := &ZipCase{Par: rapid.SampledFrom([]int{1, 2, 8, 16}).Draw(t, "par")}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ZipOp {
		return ZipOp{Body: genBody(t, 3, "text", "json", "rand", "zero", "gz"), Kind: rapid.SampledFrom([]string{"gzip", "gzip", "gunzip", "gunzip", "trunc", "garble", "random"}).Draw(t, "kind"),
			Level: rapid.SampledFrom([]int{flate.DefaultCompression, flate.NoCompression, flate.BestSpeed, flate.BestCompression, flate.HuffmanOnly}).Draw(t, "level"),
			Parts: rapid.SampledFrom([]int{1, 1, 1, 2, 5}).Draw(t, "parts"), Name: rapid.SampledFrom([]string{"", "", "a.txt", "f\u00e9"}).Draw(t, "name"),
			Extra: rapid.SampledFrom([]int{0, 0, 1, 300}).Draw(t, "extra"), At: intR(t, "at", 0, 100000)}
	}), 1, 40).Draw(t, "ops")
	return c
}

func runZipCase(env *Env, ci any) (o Outcome) {
	c := ci.(*ZipCase)
	type op struct {
		In  []byte
		Un  bool
		Bad bool
	}
	var ops []op
	for _, z := range c.Ops {
		ops = append(ops, op{z.in(), z.Kind != "gzip", z.Kind == "trunc" || z.Kind == "garble" || z.Kind == "random"})
	}
	var got struct {
		Note []string
		Res  [][]byte
	}
	if !env.ipRun(&o, "zip", map[string]any{"Par": c.Par, "Ops": ops}, &got) {
		return
	}
	for i, z := range c.Ops {
		where := fmt.Sprintf("operation %d of %d (%d at once) %+v", i, len(c.Ops), c.Par, z)
		o.item(fmt.Sprint(z), z.Body.Size > 0, "kind-"+z.Kind, fmt.Sprint("par-", c.Par))
		if got.Note[i] != "" {
			o.failf("%s: %s", where, got.Note[i])
			continue
		}
		switch z.Kind {
		case "gzip":
			b, err := gunzipStrict(got.Res[i])
			if err != nil || !bytes.Equal(b, z.Body.bytes()) {
				o.failf("%s: Gzip made %d bytes out of %d that gunzip to %d bytes (%v)", where, len(got.Res[i]), z.Body.Size, len(b), err)
			}
		case "gunzip":
			if !bytes.Equal(got.Res[i], z.Body.bytes()) {
				o.failf("%s: Gunzip made %d bytes, want the original %d", where, len(got.Res[i]), len(z.Body.bytes()))
			}
		}
	}
	return
}

func init() {
	register(&Prop{ID: "P21", Gen: genHistCase, New: func() any { return &HistCase{} }, Run: runHistCase, NeedIP: true, Quick: 4500, Shards: 4,
		Rule: "A case is a history (empty, partial, full) followed by up to 80 memory samples around the doubling threshold; after each the history, its growth rates and the log are compared with a model. In 2% of the cases the samplers run as in the server over up to 60 simulated hours with a made up /proc, and the announcements and the performance lines of every minute are compared with the model. Non-trivial: histories without missing samples."})
	register(&Prop{ID: "P24", Gen: genZipCase, New: func() any { return &ZipCase{} }, Run: runZipCase, NeedIP: true, Race: true, Quick: 300, Shards: 6,
		Rule: "A case is up to 40 Gzip and Gunzip calls by up to 16 goroutines on bodies of many kinds and sizes, with gzip streams of all levels, several members, header fields and flushes, mixed with truncated, garbled and random input that must not affect the others. Non-trivial: non-empty bodies."})
}
