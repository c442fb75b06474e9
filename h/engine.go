package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// Item is one evaluated unit inside a case (a case may batch many requests).
type Item struct {
	Key        string
	NonTrivial bool
	Labels     []string
}

// Outcome is what running a case against the real code produced.
type Outcome struct {
	Viol  string // non-empty: the property is broken by this case
	Infra string // non-empty: harness/environment trouble, says nothing about the property
	Hang  bool   // Viol was derived from a client-side deadline; needs a second confirmation
	Known []string
	Items []Item
}

func (o *Outcome) failf(f string, a ...any) {
	if o.Viol == "" {
		o.Viol = fmt.Sprintf(f, a...)
	}
}
func (o *Outcome) item(key string, nt bool, labels ...string) {
	o.Items = append(o.Items, Item{key, nt, labels})
}

// Prop is one property: generator, decoder for replay, executable oracle.
type Prop struct {
	ID       string
	Rule     string
	Gen      func(t *rapid.T) any
	New      func() any
	Run      func(env *Env, c any) Outcome
	Quick    int // cases per shard
	Thorough int
	Shards   int
	MaxWall  time.Duration // soft cap per shard in quick; generation stops there
	NeedBB   bool
	Race     bool // build the code under test with the race detector
	NeedIP   bool
	Slow     bool // cases take seconds of real time: shrink less
	Assume   []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Env is what a shard hands to Run.
type Env struct {
	J8aBin  string
	IPBin   string
	Work    string
	Shard   int
	Seed    uint64
	Tier    string
	Known   map[string]bool // ids of listed known findings
	hubs    *Hub
	ip      *ipWorker
	portSeq int
	mu      sync.Mutex
	cleanup []func()
}

func (e *Env) close() {
	for i := len(e.cleanup) - 1; i >= 0; i-- {
		e.cleanup[i]()
	}
	if e.ip != nil {
		e.ip.stop()
	}
	if e.hubs != nil {
		e.hubs.close()
	}
}

// ShardResult is merged by the parent.
type ShardResult struct {
	Shard       int
	Cases       int
	Evaluations int
	NonTrivial  map[string]bool
	Labels      map[string]int
	Samples     []json.RawMessage
	Known       map[string]int
	Viol        string
	ViolCase    json.RawMessage
	Infra       string
	Inconcl     int
	Truncated   bool
	WallS       float64
}

type tbStub struct {
	failed bool
	name   string
}

func (t *tbStub) Helper()              {}
func (t *tbStub) Name() string         { return t.name }
func (t *tbStub) Logf(string, ...any)  {}
func (t *tbStub) Log(...any)           {}
func (t *tbStub) Skipf(string, ...any) { panic("skip") }
func (t *tbStub) Skip(...any)          { panic("skip") }
func (t *tbStub) SkipNow()             { panic("skip") }
func (t *tbStub) Errorf(f string, a ...any) {
	t.failed = true
	if os.Getenv("VH_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
func (t *tbStub) Error(...any)          { t.failed = true }
func (t *tbStub) Fatalf(string, ...any) { t.failed = true; panic(tbFail{}) }
func (t *tbStub) Fatal(...any)          { t.failed = true; panic(tbFail{}) }
func (t *tbStub) FailNow()              { t.failed = true; panic(tbFail{}) }
func (t *tbStub) Fail()                 { t.failed = true }
func (t *tbStub) Failed() bool          { return t.failed }

type tbFail struct{}

func h64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func mixSeed(seed uint64, shard int, id string) uint64 {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	h := sha256.Sum256([]byte(fmt.Sprintf("%x/%d/%s", b, shard, id)))
	v := binary.LittleEndian.Uint64(h[:8]) >> 1
	if v == 0 {
		v = 0x9e3779b9
	}
	return v
}

// safeRun turns a panic in the harness itself into an infra error.
func safeRun(p *Prop, env *Env, c any) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = Outcome{Infra: fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())}
		}
	}()
	return p.Run(env, c)
}

func runShard(p *Prop, env *Env, checks int) ShardResult {
	start := time.Now()
	res := ShardResult{Shard: env.Shard, NonTrivial: map[string]bool{}, Labels: map[string]int{}, Known: map[string]int{}}
	must(flag.Set("rapid.checks", fmt.Sprint(checks)))
	must(flag.Set("rapid.seed", fmt.Sprint(mixSeed(env.Seed, env.Shard, p.ID))))
	must(flag.Set("rapid.nofailfile", "true"))
	shrink := 15 * time.Second
	if env.Tier == "thorough" {
		shrink = 90 * time.Second
	}
	grace := 30 * time.Second
	if p.Slow && env.Tier != "thorough" {
		shrink, grace = 8*time.Second, 10*time.Second
	}
	must(flag.Set("rapid.shrinktime", shrink.String()))

	maxWall := p.MaxWall
	if maxWall == 0 {
		maxWall = 150 * time.Second
	}
	if env.Tier == "thorough" {
		maxWall = 800 * time.Second
		if s := os.Getenv("VH_MAXWALL"); s != "" {
			maxWall, _ = time.ParseDuration(s)
		}
	}
	type failure struct {
		c   []byte
		msg string
	}
	var first, last *failure
	failing := false
	var failStart time.Time
	curFile := filepath.Join(env.Work, fmt.Sprintf("cur-%d.json", env.Shard))
	prop := func(t *rapid.T) {
		if res.Infra != "" {
			return
		}
		if !failing && time.Since(start) > maxWall {
			res.Truncated = true
			return
		}
		if failing && time.Since(failStart) > shrink+grace {
			return
		}
		c := p.Gen(t)
		if res.Infra != "" {
			return
		}
		cj, err := json.Marshal(c)
		if err != nil {
			res.Infra = "cannot marshal case: " + err.Error()
			return
		}
		// always execute the decoded form, so a replay file is exactly what ran
		dec := p.New()
		if err := json.Unmarshal(cj, dec); err != nil {
			res.Infra = "cannot unmarshal case: " + err.Error()
			return
		}
		os.WriteFile(curFile, cj, 0644)
		o := safeRun(p, env, dec)
		if o.Viol != "" && o.Hang {
			o2 := safeRun(p, env, dec)
			if o2.Viol == "" {
				res.Inconcl++
				o = o2
			} else {
				o = o2
			}
		}
		if o.Infra != "" {
			if !failing {
				res.Infra = o.Infra
			}
			return
		}
		if !failing {
			res.Cases++
			res.Evaluations += len(o.Items)
			for _, it := range o.Items {
				if it.NonTrivial {
					res.NonTrivial[fmt.Sprintf("%016x", h64(it.Key))] = true
				}
				for _, l := range it.Labels {
					res.Labels[l]++
				}
			}
			for _, k := range o.Known {
				res.Known[k]++
			}
			if o.Viol == "" && len(o.Items) > 0 && len(res.Samples) < 2 && len(cj) < 6000 {
				res.Samples = append(res.Samples, cj)
			}
		}
		if o.Viol != "" {
			if first == nil {
				first = &failure{cj, o.Viol}
				failing = true
				failStart = time.Now()
			}
			last = &failure{cj, o.Viol}
			if os.Getenv("VH_FAST") != "" { // development: the first violation ends the run, unshrunk
				fmt.Println("FAST", oneLine(trunc(o.Viol, 400)))
				os.Exit(77)
			}
			t.Fatalf("violation")
		}
	}
	tb := &tbStub{name: p.ID}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbFail); !ok {
					res.Infra = fmt.Sprintf("driver panic: %v\n%s", r, debug.Stack())
				}
			}
		}()
		rapid.Check(tb, prop)
	}()
	if first != nil && res.Infra == "" {
		res.Viol, res.ViolCase = last.msg, last.c
		// prefer a case that reproduces when run alone
		dec := p.New()
		json.Unmarshal(last.c, dec)
		if o := safeRun(p, env, dec); o.Viol == "" {
			dec = p.New()
			json.Unmarshal(first.c, dec)
			if o := safeRun(p, env, dec); o.Viol != "" {
				res.Viol, res.ViolCase = o.Viol, first.c
			}
		}
	} else if tb.failed && first == nil && res.Infra == "" && !res.Truncated {
		res.Infra = "rapid reported failure without a recorded violation (generator rejected too many cases?)"
	}
	res.WallS = time.Since(start).Seconds()
	return res
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func oneLine(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r", "\\r"), "\n", "\\n")
}
