package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// ---- P34: outages of upstreams leave nothing behind ----

type OutageCase struct {
	Servers int
	Max     int
	Ops     []OutageOp
}
type OutageOp struct {
	Kind   string // ok, refuse, reset, mute, 503, hangup (read the request and close), idle (close idle connections), burst
	Server int
	N      int // requests
	Par    int
	Method string
	Policy bool // through the route that spreads over all servers
}

// flaky is an upstream at one port whose condition changes.
type flaky struct {
	mu    sync.Mutex
	port  int
	ln    net.Listener
	mode  string
	gen   int
	conns map[net.Conn]bool // false: idle
	seen  map[string]int
}

func (f *flaky) listen() error {
	ln, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", f.port))
	if err != nil {
		return err
	}
	f.ln, f.port = ln, ln.Addr().(*net.TCPAddr).Port
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			f.mu.Lock()
			if f.mode == "reset" {
				f.mu.Unlock()
				c.(*net.TCPConn).SetLinger(0)
				c.Close()
				continue
			}
			f.conns[c] = false
			f.mu.Unlock()
			go f.serve(c)
		}
	}()
	return nil
}

func (f *flaky) serve(c net.Conn) {
	defer func() {
		c.Close()
		f.mu.Lock()
		delete(f.conns, c)
		f.mu.Unlock()
	}()
	br := bufio.NewReader(c)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		b, err := io.ReadAll(req.Body)
		if err != nil {
			return
		}
		f.mu.Lock()
		f.conns[c] = true
		f.seen[req.Header.Get("X-Case-Id")]++
		mode, gen := f.mode, f.gen
		f.mu.Unlock()
		st := 200
		switch mode {
		case "hangup":
			return
		case "mute":
			c.SetReadDeadline(time.Now().Add(20 * time.Second))
			br.ReadByte()
			return
		case "503":
			st = 503
		}
		body := fmt.Sprintf("%d %d %s %d", f.port, gen, req.Header.Get("X-Case-Id"), len(b))
		n := fmt.Sprintf("Content-Length: %d\r\n", len(body))
		if req.Method == "HEAD" {
			body = ""
		}
		if _, err := fmt.Fprintf(c, "HTTP/1.1 %d S\r\n%sContent-Type: text/plain\r\n\r\n%s", st, n, body); err != nil {
			return
		}
		f.mu.Lock()
		f.conns[c] = false
		f.mu.Unlock()
	}
}

// set changes the condition; err when the port was lost to somebody else.
func (f *flaky) set(mode string) error {
	f.mu.Lock()
	was := f.mode
	if mode != "idle" {
		f.mode = mode
		f.gen++
	}
	for c, busy := range f.conns {
		if mode == "refuse" || mode == "reset" || mode == "idle" && !busy {
			c.Close()
		}
	}
	f.mu.Unlock()
	if mode == "refuse" && was != "refuse" {
		f.ln.Close()
	}
	if was == "refuse" && mode != "refuse" && mode != "idle" {
		return f.listen()
	}
	return nil
}

func genOutageCase(t *rapid.T) any {
	c := &OutageCase{Servers: intR(t, "servers", 1, 3), Max: intR(t, "max", 1, 3)}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) OutageOp {
		return OutageOp{Kind: rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "ok", "ok", "refuse", "refuse", "refuse", "refuse", "reset", "reset", "reset", "mute", "hangup", "hangup", "hangup", "503", "503", "503", "503", "idle", "idle", "idle", "idle"}).Draw(t, "kind"), Server: intR(t, "server", 0, c.Servers-1),
			N: rapid.SampledFrom([]int{0, 1, 1, 2, 5, 20, 40}).Draw(t, "n"), Par: rapid.SampledFrom([]int{1, 1, 4, 20}).Draw(t, "par"), Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "PUT", "POST", "HEAD", "DELETE"}).Draw(t, "m"), Policy: chance(t, "pol", 25)}
	}), 3, 18).Draw(t, "ops")
	return c
}

func runOutageCase(env *Env, ci any) (o Outcome) {
	c := ci.(*OutageCase)
	fs := make([]*flaky, c.Servers)
	cfg := Cfg{Resources: map[string][]CfgRes{"all": nil}, Policies: map[string][]CfgLW{"p": nil}, Routes: []CfgRoute{{Path: "/all", Resource: "all", Policy: "p"}},
		Up: map[string]any{"maxAttempts": c.Max, "readTimeoutSeconds": 1, "socketTimeoutSeconds": 1, "poolSize": 64}, Down: map[string]any{"roundTripTimeoutSeconds": 20}}
	for i := range fs {
		fs[i] = &flaky{mode: "ok", conns: map[net.Conn]bool{}, seen: map[string]int{}}
		if err := fs[i].listen(); err != nil {
			o.Infra = err.Error()
			return
		}
		defer fs[i].set("refuse")
		l := fmt.Sprintf("l%d", i)
		cfg.Resources[l] = []CfgRes{{Up: -1, Host: "127.0.0.1", Port: fs[i].port}}
		cfg.Resources["all"] = append(cfg.Resources["all"], CfgRes{Up: -1, Host: "127.0.0.1", Port: fs[i].port, Labels: []string{l}})
		cfg.Policies["p"] = append(cfg.Policies["p"], CfgLW{Label: l, Weight: 1 / float64(c.Servers)})
		cfg.Routes = append(cfg.Routes, CfgRoute{Path: fmt.Sprintf("/s%d", i), Resource: l})
	}
	j := startOrFail(env, cfg, startOpt{}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	seq := 0
	for oi, op := range c.Ops {
		if err := fs[op.Server].set(op.Kind); err != nil {
			o.Infra = "an upstream could not come back: " + err.Error()
			return
		}
		time.Sleep(30 * time.Millisecond)
		var hist []string
		for _, p := range c.Ops[:oi+1] {
			hist = append(hist, fmt.Sprintf("%s:%d", p.Kind, p.Server))
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		for i, f := range fs {
			if f.mode == "mute" && (op.Policy || i == op.Server) {
				op.N, op.Par = min(op.N, 5), 20 // they take their time
			}
		}
		jobs := make(chan int, op.N)
		for i := 0; i < op.N; i++ {
			seq++
			jobs <- seq
		}
		close(jobs)
		for w := 0; w < op.Par; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for s := range jobs {
					id := fmt.Sprint("o", s)
					e := Exch{Method: op.Method, Target: fmt.Sprintf("/s%d", op.Server), Hdrs: []HV{{"X-Case-Id", id}}}
					if op.Policy {
						e.Target = "/all"
					}
					if inList(op.Method, "PUT", "POST") {
						e.Framing, e.Body = "cl", BodySpec{"text", 77, 1}
					}
					t0 := time.Now()
					cn, err := dial(j.Addr)
					if err != nil {
						continue
					}
					d := cn.roundTrip(e.raw("", "j8a.test"), e.Method)
					cn.c.Close()
					el := time.Since(t0)
					mu.Lock()
					judgeOutage(&o, c, fs, op, e, id, d, el, strings.Join(hist, " "))
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if o.Viol != "" {
			return
		}
	}
	finish(env, j, &o)
	return
}

func judgeOutage(o *Outcome, c *OutageCase, fs []*flaky, op OutageOp, e Exch, id string, d DownResp, el time.Duration, hist string) {
	where := fmt.Sprintf("after %s, %s %s (maxAttempts %d)", hist, e.Method, e.Target, c.Max)
	modes := map[string]bool{}
	calls := 0
	server := op.Server
	for i, f := range fs {
		f.mu.Lock()
		calls += f.seen[id]
		if op.Policy && strings.HasPrefix(string(d.Body), fmt.Sprint(f.port, " ")) {
			server = i
		}
		if op.Policy || i == op.Server {
			m := f.mode
			modes[m] = true
		}
		f.mu.Unlock()
	}
	o.item(fmt.Sprint(hist, op), strings.Contains(hist, "refuse") || strings.Contains(hist, "reset") || strings.Contains(hist, "mute") || strings.Contains(hist, "503") || strings.Contains(hist, "hangup") || strings.Contains(hist, "idle"), "condition-"+strings.Join(sortedKeys(modes), "+"), fmt.Sprintf("answered-%d", d.Status))
	if d.Err != nil {
		o.failf("%s: no valid response: %v", where, d.Err)
		o.Hang = o.Hang || d.Hang
		return
	}
	want := map[int]bool{}
	for m := range modes {
		switch m {
		case "ok":
			want[200] = true
		case "mute":
			want[504] = true
		default:
			want[502] = true
		}
	}
	if e.Method == "POST" && calls > 1 {
		o.failf("%s: sent upstream %d times, answered %d", where, calls, d.Status)
		return
	}
	if !want[d.Status] {
		o.failf("%s: answered %s after %v although the upstream is %v now", where, d.brief(), el.Round(time.Millisecond), sortedKeys(modes))
		o.Hang = true // the news of a closed connection may take its time to get around: it must happen again
		return
	}
	if d.Status == 200 {
		f := fs[server]
		if calls < 1 {
			o.failf("%s: answered 200 but no upstream saw the request", where)
		}
		if e.Method != "HEAD" {
			if b, _ := decoded(d); string(b) != fmt.Sprintf("%d %d %s %d", f.port, f.gen, id, e.Body.Size) {
				o.failf("%s: answered %q, which is not the response to this request by server %d in its present generation %d", where, b, server, f.gen)
			}
		}
		if el > waitLimit && len(modes) == 1 {
			o.failf("%s: answered after %v although the upstream is well", where, el)
			o.Hang = true
		}
	}
}

func init() {
	register(&Prop{ID: "P34", Gen: genOutageCase, New: func() any { return &OutageCase{} }, Run: runOutageCase, NeedBB: true, Quick: 25, Shards: 8,
		Rule: "A case is a booted proxy and a history of 3-18 changes in the condition of 1-3 upstreams (well, refusing, resetting, mute, hanging up, answering 503, closing idle connections), each followed by up to 40 requests by 1-20 clients, to one or by policy to all. The answers must follow from the condition at the time of the request alone: 200 from the upstream as it is now when well, 502 or 504 otherwise, POST never sent twice. Non-trivial: not only well so far."})
}
