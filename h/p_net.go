package main

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Real-time checks. Durations of whole seconds are compared with a generous upper tolerance;
// exceeding it must happen twice (Outcome.Hang) before it counts.
const (
	netEarly = 100 * time.Millisecond
	netLate  = 2500 * time.Millisecond
)

// blackhole listens on a port whose accept queue is full: connecting hangs.
func blackhole() (port int, done func(), err error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return 0, nil, err
	}
	done = func() { syscall.Close(fd) }
	if err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err == nil {
		err = syscall.Listen(fd, 0)
	}
	if err != nil {
		done()
		return 0, nil, err
	}
	sa, _ := syscall.Getsockname(fd)
	port = sa.(*syscall.SockaddrInet4).Port
	var cs []net.Conn
	done = func() {
		for _, c := range cs {
			c.Close()
		}
		syscall.Close(fd)
	}
	for i := 0; i < 8; i++ {
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 150*time.Millisecond)
		if err != nil {
			return port, done, nil
		}
		cs = append(cs, c)
	}
	done()
	return 0, nil, fmt.Errorf("cannot fill an accept queue here")
}

// ---- P25: upstream timeouts on real connections ----

type NetUpCase struct {
	Sock, Read, RT, Max int
	Reqs                []NetUpReq
}
type NetUpReq struct {
	Kind   string // syn hello stall-none stall-status stall-head stall-body stall-chunk ok slow recover
	Method string
	Delay  int
	Fails  int
	Seed   int
}

func genNetUpCase(t *rapid.T) any {
	c := &NetUpCase{Max: intR(t, "max", 1, 3)}
	// one of the three limits is short, the others are far away
	switch intR(t, "short", 0, 4) {
	case 0, 1:
		c.Sock, c.Read, c.RT = 1, rapid.SampledFrom([]int{6, 8, 12}).Draw(t, "read"), rapid.SampledFrom([]int{20, 40}).Draw(t, "rt")
	case 2, 3:
		c.Sock, c.Read, c.RT = rapid.SampledFrom([]int{6, 9}).Draw(t, "sock"), 1, rapid.SampledFrom([]int{20, 40}).Draw(t, "rt")
	case 4:
		c.Sock, c.Read, c.RT = rapid.SampledFrom([]int{6, 9}).Draw(t, "sock"), rapid.SampledFrom([]int{8, 15}).Draw(t, "read"), intR(t, "rt", 1, 2)
	}
	kinds := []string{"syn", "hello", "stall-none", "stall-status", "stall-head", "stall-body", "stall-chunk", "stall-driphead", "stall-dripbody", "stall-noread", "ok", "slow", "recover"}
	if c.Sock > 1 && c.Read > 1 {
		kinds = append(kinds, "stall-body", "stall-none", "syn")
	}
	c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) NetUpReq {
		r := NetUpReq{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Method: rapid.SampledFrom([]string{"GET", "GET", "PUT", "DELETE", "HEAD", "POST", "POST", "OPTIONS"}).Draw(t, "method"), Seed: intR(t, "seed", 0, 1<<20)}
		if c.Sock == 1 && c.Read > 1 && (strings.HasPrefix(r.Kind, "stall") || r.Kind == "recover") {
			r.Kind = rapid.SampledFrom([]string{"hello", "syn"}).Draw(t, "instead")
		}
		if r.Method == "HEAD" && inList(r.Kind, "stall-body", "stall-chunk", "stall-dripbody") {
			r.Kind = "stall-head"
		}
		if r.Kind == "stall-noread" {
			r.Method = rapid.SampledFrom([]string{"PUT", "POST"}).Draw(t, "upload")
		}
		r.Delay = rapid.SampledFrom([]int{0, 0, 200, 500}).Draw(t, "delay")
		r.Fails = intR(t, "fails", 1, 2)
		return r
	}), 8, 30).Draw(t, "reqs")
	return c
}

func runNetUpCase(env *Env, ci any) (o Outcome) {
	c := ci.(*NetUpCase)
	hub := env.hub()
	bport, bdone, berr := blackhole()
	if berr == nil {
		defer bdone()
	} else {
		bport = hub.ports[0]
	}
	// accepts connections and never says a word
	mute, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		o.Infra = err.Error()
		return
	}
	defer mute.Close()
	var muteOpen int64
	go func() {
		for {
			cn, err := mute.Accept()
			if err != nil {
				return
			}
			atomic.AddInt64(&muteOpen, 1)
			go func() {
				cn.SetDeadline(time.Now().Add(100 * time.Second))
				io.Copy(io.Discard, cn)
				cn.Close()
				atomic.AddInt64(&muteOpen, -1)
			}()
		}
	}()
	cfg := Cfg{Routes: []CfgRoute{{Path: "/syn", Resource: "syn"}, {Path: "/hello", Resource: "hello"}, {Path: "/r", Resource: "r"}},
		Resources: map[string][]CfgRes{"syn": {{Up: -1, Host: "127.0.0.1", Port: bport}}, "hello": {{Up: -1, Host: "127.0.0.1", Port: mute.Addr().(*net.TCPAddr).Port, Scheme: "https"}}, "r": {{Up: 0}}},
		Up:        map[string]any{"socketTimeoutSeconds": c.Sock, "readTimeoutSeconds": c.Read, "maxAttempts": c.Max},
		Down:      map[string]any{"roundTripTimeoutSeconds": c.RT, "readTimeoutSeconds": 30, "maxBodyBytes": 20 << 20}}
	j := startOrFail(env, cfg, startOpt{}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	type want struct {
		status []int
		sec    int // -1: at once
		ups    int
		ambig  bool
	}
	model := func(r NetUpReq) (w want) {
		n := c.Max
		if r.Method == "POST" {
			n = 1
		}
		per, st := 0, 504
		switch {
		case r.Kind == "ok" || r.Kind == "slow":
			return want{status: []int{200}, sec: 0, ups: 1}
		case r.Kind == "recover":
			if r.Fails < n {
				w.ups = r.Fails + 1
				n = r.Fails
				st = 200
			} else {
				w.ups = n
			}
			per = c.Read
		case strings.HasPrefix(r.Kind, "stall"):
			per, w.ups = c.Read, n
		default: // syn, hello
			per = min(c.Sock, c.Read)
			if c.Sock < c.Read {
				st = 502
			}
		}
		w.status, w.sec = []int{st}, n*per
		if w.sec == c.RT {
			w.ambig = true
		}
		if w.sec > c.RT {
			w.status, w.sec = []int{504}, c.RT
			if w.ups > 0 {
				w.ups = (c.RT + per - 1) / per
			}
		}
		return
	}
	out := make([]XR, len(c.Reqs))
	el := make([]time.Duration, len(c.Reqs))
	var wg sync.WaitGroup
	for i, r := range c.Reqs {
		if r.Kind == "syn" && berr != nil {
			continue
		}
		x := Exch{Method: r.Method, Target: map[string]string{"syn": "/syn", "hello": "/hello"}[r.Kind]}
		if x.Target == "" {
			x.Target = "/r"
		}
		if inList(r.Method, "PUT", "POST") {
			x.Body, x.Framing = BodySpec{"text", 20, 1}, "cl"
			if r.Kind == "stall-noread" {
				x.Body.Size = 8 << 20 // more than the sockets hold
			}
		}
		ok := UpResp{Status: 200, Body: BodySpec{"text", 40, uint32(r.Seed)}, Close: true}
		bad := UpResp{Status: 200, Body: BodySpec{"text", 40, uint32(r.Seed)}, Fault: r.Kind, Delay: r.Delay}
		switch r.Kind {
		case "ok":
			x.Ups = []UpResp{ok}
		case "slow":
			ok.Delay = r.Delay
			x.Ups = []UpResp{ok}
		case "recover":
			bad.Fault = []string{"stall-none", "stall-head", "stall-body"}[r.Seed%3]
			if r.Method == "HEAD" {
				bad.Fault = "stall-none"
			}
			for k := 0; k < r.Fails; k++ {
				x.Ups = append(x.Ups, bad)
			}
			x.Ups = append(x.Ups, ok)
		default:
			x.Ups = []UpResp{bad}
		}
		out[i].E, out[i].ID = x, hub.newID()
		hub.register(out[i].ID, x.Ups)
		wg.Add(1)
		go func() {
			defer wg.Done()
			t0 := time.Now()
			cn, err := dial(j.Addr)
			if err != nil {
				out[i].Resp = DownResp{Err: err}
				return
			}
			defer cn.c.Close()
			out[i].Resp = cn.roundTrip(x.raw(out[i].ID, "j8a.test"), x.Method)
			el[i] = time.Since(t0)
		}()
	}
	wg.Wait()
	end := time.Now()
	for i, r := range c.Reqs {
		if out[i].ID == "" {
			continue
		}
		out[i].Ups = hub.take(out[i].ID)
		w := model(r)
		where := fmt.Sprintf("%+v with socket timeout %ds, read timeout %ds, round trip %ds, %d attempts", r, c.Sock, c.Read, c.RT, c.Max)
		o.item(fmt.Sprint(r.Kind, r.Method, r.Delay, r.Fails, c.Sock, c.Read, c.RT, c.Max), w.sec > 0, "kind-"+r.Kind, fmt.Sprint("status-", w.status[0]), fmt.Sprint("secs-", w.sec))
		if noResp(&o, out[i]) {
			continue
		}
		d := out[i].Resp
		if !w.ambig {
			if d.Status != w.status[0] {
				o.failf("%s: want status %d, got %s after %v", where, w.status[0], d.brief(), el[i])
				o.Hang = true // a stalled machine may let another limit fire first
			} else if d.Status >= 500 {
				errShape(&o, where, out[i].E, d, d.Status, false)
			}
			// an attempt that starts just before the end may or may not get through
			if n := len(out[i].Ups); n != w.ups {
				o.failf("%s: %d attempts arrived upstream, want %d", where, n, w.ups)
				o.Hang = true
			}
		}
		want := time.Duration(w.sec) * time.Second
		if el[i] < want-netEarly {
			o.failf("%s: answered %d after %v, want %v", where, d.Status, el[i], want)
		}
		if el[i] > want+netLate {
			o.failf("%s: answered %d only after %v, want %v", where, d.Status, el[i], want)
			o.Hang = true
		}
	}
	// nothing outlives the exchanges: stalled connections are hung up on; a connection being set up may be kept for other requests until the socket timeout
	checkMute := c.Sock <= 2
	for time.Since(end) < netLate+time.Duration(c.Sock)*time.Second {
		left := 0
		hub.mu.Lock()
		for i, r := range c.Reqs {
			if strings.HasPrefix(r.Kind, "stall") && out[i].ID != "" && len(hub.gone[out[i].ID]) < len(out[i].Ups) {
				left++
			}
		}
		hub.mu.Unlock()
		if left > 0 && time.Since(end) > netLate {
			break
		}
		if left == 0 && (!checkMute || atomic.LoadInt64(&muteOpen) == 0) {
			end = time.Time{}
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if !end.IsZero() && o.Viol == "" {
		o.failf("%v after everything was answered, connections to stalled upstreams are still open (socket timeout %ds, read timeout %ds, round trip %ds, %d attempts, %d mute)", time.Since(end), c.Sock, c.Read, c.RT, c.Max, atomic.LoadInt64(&muteOpen))
		o.Hang = true
	}
	hub.mu.Lock()
	hub.gone = nil
	hub.mu.Unlock()
	finish(env, j, &o)
	return
}

// ---- P27: upstream connection pool ----

type PoolCase struct {
	Pool   int // 0: default
	Idle   int
	Bursts []PoolBurst
	Mess   []PoolMess
}
type PoolBurst struct {
	N, Hosts int
	Methods  []string
	Size     int
}
type PoolMess struct {
	Kind   string
	Method string
	Seed   int
}

func genPoolCase(t *rapid.T) any {
	c := &PoolCase{Pool: rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 8}).Draw(t, "pool"), Idle: rapid.SampledFrom([]int{2, 3}).Draw(t, "idle")}
	c.Bursts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) PoolBurst {
		return PoolBurst{N: intR(t, "n", 1, 20), Hosts: intR(t, "hosts", 1, 3), Size: rapid.SampledFrom([]int{0, 1, 100, 5000, 100000}).Draw(t, "size"),
			Methods: rapid.SliceOfN(rapid.SampledFrom([]string{"GET", "PUT", "HEAD", "POST", "DELETE"}), 1, 3).Draw(t, "methods")}
	}), 1, 3).Draw(t, "bursts")
	c.Mess = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) PoolMess {
		return PoolMess{Kind: rapid.SampledFrom([]string{"4xx", "5xx", "5xxbig", "close", "garbage", "trunc", "stall-body", "stall-none", "leave", "leavebody", "404", "413", "ok", "gz", "304"}).Draw(t, "kind"),
			Method: rapid.SampledFrom([]string{"GET", "PUT", "HEAD", "POST", "DELETE"}).Draw(t, "method"), Seed: intR(t, "seed", 0, 1<<20)}
	}), 0, 25).Draw(t, "mess")
	return c
}

func (h *Hub) open() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.conns)
}

func sockets(pid int) int {
	n := 0
	es, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	for _, e := range es {
		if l, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", pid, e.Name())); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

func waitFor(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); ; time.Sleep(5 * time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

func runPoolCase(env *Env, ci any) (o Outcome) {
	c := ci.(*PoolCase)
	hub := env.hub()
	hub.dropConns()
	if !waitFor(10*time.Second, func() bool { return hub.open() == 0 }) {
		o.Infra = "connections of an earlier proxy are still open"
		return
	}
	cfg := Cfg{Resources: map[string][]CfgRes{}, Up: map[string]any{"idleTimeoutSeconds": c.Idle, "readTimeoutSeconds": 1, "maxAttempts": 2}, Down: map[string]any{"maxBodyBytes": 200000}}
	if c.Pool > 0 {
		cfg.Up["poolSize"] = c.Pool
	}
	for i := 0; i < 3; i++ {
		cfg.Routes = append(cfg.Routes, CfgRoute{Path: fmt.Sprintf("/r%d", i), Resource: fmt.Sprintf("r%d", i)})
		cfg.Resources[fmt.Sprintf("r%d", i)] = []CfgRes{{Up: i}}
	}
	j := startOrFail(env, cfg, startOpt{}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	pid := j.cmd.Process.Pid
	base := 1 // the listener
	if !waitFor(5*time.Second, func() bool { return sockets(pid) == base }) {
		base = sockets(pid)
	}
	pool := c.Pool
	if pool == 0 {
		pool = 32768
	}
	var lastUse, lastStart time.Time // both sides of the instant connections became idle
	for bi, b := range c.Bursts {
		// all of a burst wait for each other upstream, so each needs a connection of its own
		var xs []Exch
		for i := 0; i < b.N; i++ {
			m := b.Methods[i%len(b.Methods)]
			x := Exch{Method: m, Target: fmt.Sprintf("/r%d/x", i%b.Hosts), Ups: []UpResp{{Status: 200, Body: BodySpec{"text", b.Size, 1}}}}
			if inList(m, "PUT", "POST") {
				x.Body, x.Framing = BodySpec{"text", b.Size, 2}, "cl"
			}
			xs = append(xs, x)
		}
		var arrived int64
		all := make(chan bool)
		hub.mu.Lock()
		hub.hook = func(string, UpReq) {
			if atomic.AddInt64(&arrived, 1) == int64(b.N) {
				close(all)
			}
			select {
			case <-all:
			case <-time.After(700 * time.Millisecond): // below the read timeout
			}
		}
		hub.mu.Unlock()
		lastStart = time.Now()
		out := env.runBatch(j, xs, b.N, true)
		hub.mu.Lock()
		hub.hook = nil
		hub.mu.Unlock()
		lastUse = time.Now()
		o.item(fmt.Sprint(c.Pool, b), b.N > pool, fmt.Sprint("pool-", c.Pool), fmt.Sprint("over-", b.N > pool))
		for _, x := range out {
			if noResp(&o, x) {
				return
			}
			if x.Resp.Status != 200 || len(x.Ups) != 1 {
				o.failf("burst %d of %d requests with poolSize %d: %s %s reached upstream %d times, answered %s", bi, b.N, c.Pool, x.E.Method, x.E.Target, len(x.Ups), x.Resp.brief())
				o.Hang = true
			}
		}
		n := 0
		if !waitFor(1500*time.Millisecond, func() bool { n = hub.open(); return n <= pool }) {
			o.failf("%d idle upstream connections after a burst of %d requests to %d hosts, poolSize is %d", n, b.N, b.Hosts, c.Pool)
			o.Hang = true
		}
		if want := min(b.N, pool); n < want && atomic.LoadInt64(&arrived) == int64(b.N) && o.Viol == "" && time.Since(lastUse) < time.Second {
			o.failf("%d idle upstream connections kept after a burst of %d simultaneous requests to %d hosts, poolSize is %d", n, b.N, b.Hosts, c.Pool)
			o.Hang = true
		}
		// the pool is made use of
		acc := atomic.LoadInt64(&hub.accepts)
		if hub.open() > 0 && b.Hosts == 1 && time.Since(lastUse) < 500*time.Millisecond {
			for i := 0; i < 5; i++ {
				lastStart = time.Now()
				out := env.runBatch(j, []Exch{{Method: "GET", Target: "/r0/again", Ups: []UpResp{{Status: 200}}}}, 1, true)
				if noResp(&o, out[0]) {
					return
				}
				waitFor(20*time.Millisecond, func() bool { return false }) // let the connection return to the pool
			}
			if d := atomic.LoadInt64(&hub.accepts) - acc; d > 0 && bi == 0 {
				o.failf("5 requests one after the other opened %d new upstream connections although idle ones were there (poolSize %d, burst of %d)", d, c.Pool, b.N)
				o.Hang = true
			}
			lastUse = time.Now()
		}
	}
	if len(c.Mess) == 0 && o.Viol == "" {
		// idle connections are kept for the idle timeout, and no longer
		n := hub.open()
		if n > 0 {
			waitFor(time.Duration(c.Idle)*time.Second+netLate, func() bool { return hub.open() == 0 })
			d := time.Since(lastUse)
			if hub.open() > 0 {
				o.failf("%d upstream connections still open %v after their last use, idleTimeoutSeconds is %d", hub.open(), d, c.Idle)
				o.Hang = true
			} else if d := time.Since(lastStart); d < time.Duration(c.Idle)*time.Second-netEarly {
				o.failf("all %d idle upstream connections closed within %v of their last use, idleTimeoutSeconds is %d", n, d, c.Idle)
			}
			o.item(fmt.Sprint("idle", c.Idle, c.Pool, n), true, "idle")
		}
	}
	var wg sync.WaitGroup
	var ids []string
	for _, m := range c.Mess {
		x := Exch{Method: m.Method, Target: fmt.Sprintf("/r%d/m", m.Seed%3)}
		u := UpResp{Status: 200, Body: BodySpec{"text", []int{0, 10, 3000, 300000}[m.Seed%4], 5}}
		switch m.Kind {
		case "4xx":
			u.Status = 404
		case "5xx":
			u.Status = 503
		case "5xxbig":
			u.Status, u.Body.Size = 500, 2000000
		case "close", "garbage", "trunc", "stall-body", "stall-none":
			u.Fault = m.Kind
			u.Body.Size = max(u.Body.Size, 10)
		case "leave", "leavebody":
			u.Delay = 300
		case "404":
			x.Target = "/none"
		case "413":
			x.Method, x.Body, x.Framing = "PUT", BodySpec{"text", 200100, 1}, "cl"
		case "gz":
			u.Enc = "gzip"
		case "304":
			u.Status = 304
		}
		if m.Kind == "leavebody" {
			x.Method = "PUT"
		}
		if inList(x.Method, "PUT", "POST") && x.Framing == "" {
			x.Body, x.Framing = BodySpec{"text", 1000, 1}, "cl"
		}
		x.Ups = []UpResp{u}
		id := hub.newID()
		ids = append(ids, id)
		hub.register(id, x.Ups)
		wg.Add(1)
		go func() {
			defer wg.Done()
			cn, err := dial(j.Addr)
			if err != nil {
				return
			}
			defer cn.c.Close()
			raw := x.raw(id, "j8a.test")
			switch m.Kind {
			case "leave":
				cn.c.Write(raw)
				time.Sleep(time.Duration(m.Seed%300) * time.Millisecond)
			case "leavebody":
				cn.c.Write(raw[:len(raw)-1-m.Seed%900])
			default:
				cn.roundTrip(raw, x.Method)
			}
		}()
		o.item(fmt.Sprint("mess", m), true, "mess-"+m.Kind)
	}
	wg.Wait()
	if len(c.Mess) > 0 && o.Viol == "" {
		n := 0
		if !waitFor(time.Duration(c.Idle)*time.Second+2*netLate+2*time.Second, func() bool { n = sockets(pid); return n <= base && hub.open() == 0 }) && j.alive() {
			o.failf("%d sockets (%d upstream connections) are left when all clients are gone and idle timeouts have passed, want %d; requests were %+v", n, hub.open(), base, c.Mess)
			o.Hang = true
		}
	}
	for _, id := range ids {
		hub.take(id)
	}
	hub.mu.Lock()
	hub.gone = nil
	hub.mu.Unlock()
	finish(env, j, &o)
	return
}

// ---- P29: downstream timeouts ----

type DwnCase struct {
	Read, Idle int
	Trip       int `json:",omitempty"` // round trip timeout, 0: far away
	TLS        bool
	Conns      []DwnConn
}
type DwnConn struct {
	Kind string // nothing head body pace idle reuse slowup second unread slowread; with h2 in front: over HTTP/2
	Cut  int    // bytes sent at once
	Step int    // ms between further bytes, 0: none follow
	Body int
	Wait int // ms
}

// limit is how many seconds a request may take to arrive
func (c *DwnCase) limit() int {
	if c.Trip > 0 {
		return min(c.Read, c.Trip)
	}
	return c.Read
}

const dwnBig = 16 << 20

func genDwnCase(t *rapid.T) any {
	c := &DwnCase{Read: intR(t, "read", 1, 2), Idle: rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "idle"), TLS: chance(t, "tls", 35)}
	kinds := []string{"nothing", "head", "head", "body", "body", "pace", "pace", "idle", "idle", "reuse", "slowup", "second"}
	if chance(t, "trip", 40) {
		c.Trip = 3
		if chance(t, "shorttrip", 30) {
			// the round trip timeout ends before the read timeout
			c.Trip, c.Read = intR(t, "shorter", 1, 2), 5
		}
		kinds = append(kinds, "unread", "unread", "slowread", "slowread")
	}
	if c.TLS {
		kinds = append(kinds, "h2idle", "h2body", "h2body", "h2pace", "h2reuse", "h2slowup")
	}
	c.Conns = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) DwnConn {
		d := DwnConn{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
			Cut: intR(t, "cut", 0, 70), Step: rapid.SampledFrom([]int{0, 30, 100, 300}).Draw(t, "step"), Body: rapid.SampledFrom([]int{300, 1000, 50000}).Draw(t, "body")}
		switch strings.TrimPrefix(d.Kind, "h2") {
		case "pace":
			d.Wait = intR(t, "wait", 0, c.limit()*1000-600)
		case "reuse":
			d.Wait = intR(t, "wait", 0, c.Idle*1000-600)
		case "slowup":
			d.Wait = c.Read*1000 + intR(t, "wait", 200, 900)
			if c.Trip > 0 {
				d.Wait = max(0, min(d.Wait, c.Trip*1000-600))
			}
		case "slowread":
			d.Wait = intR(t, "wait", 0, c.Trip*1000-700)
		}
		return d
	}), 10, 40).Draw(t, "conns")
	return c
}

// watched remembers when something was read: frames, or that the other side hung up.
type watched struct {
	net.Conn
	mu    sync.Mutex
	reads []time.Time
}

func (w *watched) Read(b []byte) (int, error) {
	n, err := w.Conn.Read(b)
	w.mu.Lock()
	w.reads = append(w.reads, time.Now())
	w.mu.Unlock()
	return n, err
}

// slowBody is a request body with a pause after its first part, which Close ends.
type slowBody struct {
	first, rest int
	wait        time.Duration
	stop        chan struct{}
	paused      bool
	once        sync.Once
}

// Close ends a pause: the transport waits for the Read that it closes the body for.
func (s *slowBody) Close() error {
	s.once.Do(func() { close(s.stop) })
	return nil
}

func (s *slowBody) Read(b []byte) (int, error) {
	if s.first > 0 {
		n := min(s.first, len(b))
		copy(b, strings.Repeat("b", n))
		s.first -= n
		return n, nil
	}
	if !s.paused {
		s.paused = true
		select {
		case <-time.After(s.wait):
		case <-s.stop:
			return 0, io.ErrUnexpectedEOF
		}
	}
	if s.rest == 0 {
		return 0, io.EOF
	}
	n := min(s.rest, len(b))
	copy(b, strings.Repeat("b", n))
	s.rest -= n
	return n, nil
}

// dwnH2 plays one HTTP/2 connection of a case.
func (env *Env) dwnH2(j *J8a, c *DwnCase, d DwnConn, conf *tls.Config, where string, fail func(bool, string, ...any)) {
	hub := env.hub()
	limit, idle := time.Duration(c.limit())*time.Second, time.Duration(c.Idle)*time.Second
	conns := make(chan *watched, 10)
	t0 := time.Now()
	tr := &http.Transport{ForceAttemptHTTP2: true, DisableCompression: true, DialTLSContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
		cf := conf.Clone()
		cf.NextProtos = []string{"h2"}
		raw, err := net.Dial("tcp", j.Addr)
		if err != nil {
			return nil, err
		}
		w := &watched{Conn: raw}
		tc := tls.Client(w, cf)
		if err := tc.HandshakeContext(ctx); err != nil {
			return nil, err
		}
		conns <- w
		return tc, nil
	}}
	defer tr.CloseIdleConnections()
	id := hub.newID()
	up := UpResp{Status: 200, Body: BodySpec{"text", 20, 3}}
	if d.Kind == "h2slowup" {
		up.Delay = d.Wait
	}
	hub.register(id, []UpResp{up})
	ask := func(method string, body io.Reader) (int, string, error) {
		ctx, cancel := context.WithTimeout(context.Background(), clientDeadline)
		defer cancel()
		req, err := http.NewRequestWithContext(ctx, method, "https://"+j.Addr+"/r/x", body)
		must(err)
		req.Host = "j8a.test"
		req.Header[idHeader] = []string{id}
		res, err := tr.RoundTrip(req)
		if err != nil {
			return 0, "", err
		}
		defer res.Body.Close()
		b, err := io.ReadAll(res.Body)
		return res.StatusCode, res.Proto, errors.Join(err, map[bool]error{true: nil, false: fmt.Errorf("%d bytes", len(b))}[res.StatusCode != 200 || len(b) == 20])
	}
	served := func(body io.Reader) bool {
		m := "GET"
		if body != nil {
			m = "PUT"
		}
		st, proto, err := ask(m, body)
		if err != nil || st != 200 || proto != "HTTP/2.0" {
			fail(true, "%s: request not served: status %d, %s, %v", where, st, proto, err)
			return false
		}
		return true
	}
	switch d.Kind {
	case "h2slowup":
		served(nil)
	case "h2idle":
		t1 := time.Now()
		if !served(nil) {
			return
		}
		w := <-conns
		// the server says it takes no more requests and leaves it to the client to hang up
		from := time.Now().Add(300 * time.Millisecond)
		time.Sleep(idle + netLate)
		w.mu.Lock()
		var at time.Time
		for _, r := range w.reads {
			if r.After(from) {
				at = r
				break
			}
		}
		w.mu.Unlock()
		if el := at.Sub(t1); at.IsZero() {
			fail(true, "%s: idle after a response, not given up after %v", where, time.Since(t1))
		} else if el < idle-netEarly-el/50 {
			fail(false, "%s: idle after a response, given up after %v already", where, el)
		} else if served(nil) && len(conns) == 0 {
			fail(true, "%s: idle after a response, still used after %v", where, time.Since(t1))
		}
	case "h2reuse":
		if served(nil) {
			t1 := time.Now()
			time.Sleep(time.Duration(d.Wait) * time.Millisecond)
			if time.Since(t1) < idle-300*time.Millisecond && served(nil) && len(conns) > 1 {
				fail(true, "%s: another connection was needed for the second request", where)
			}
		}
	case "h2pace":
		b := &slowBody{first: min(d.Cut*3, d.Body-1), wait: time.Duration(d.Wait) * time.Millisecond, stop: make(chan struct{})}
		b.rest = d.Body - b.first
		st, proto, err := ask("PUT", b)
		if time.Since(t0) > limit-200*time.Millisecond {
			return // the machine was too slow to be in time
		}
		ups := hub.take(id)
		if err != nil || st != 200 || len(ups) != 1 || len(ups[0].Body) != d.Body {
			fail(true, "%s: sent within %v, %d upstream requests, got %d %s %v", where, time.Since(t0), len(ups), st, proto, err)
		}
	case "h2body":
		b := &slowBody{first: d.Cut, wait: time.Hour, stop: make(chan struct{})}
		defer b.Close()
		t1 := time.Now()
		st, _, err := ask("PUT", b)
		el := time.Since(t1)
		switch {
		case err == nil && st < 400:
			fail(false, "%s: a request without a complete body was answered %d", where, st)
		case el > limit+netLate:
			fail(true, "%s: the body was not completed: status %d, %v after %v, want %v", where, st, err, el, limit)
		case el < limit-netEarly-el/50:
			fail(false, "%s: the body was not completed: status %d, %v after %v already, want %v", where, st, err, el, limit)
		}
		if n := len(hub.take(id)); n > 0 {
			fail(false, "%s: a request whose body was never completed reached the upstream", where)
		}
	}
}

func runDwnCase(env *Env, ci any) (o Outcome) {
	c := ci.(*DwnCase)
	hub := env.hub()
	cfg := Cfg{Routes: []CfgRoute{{Path: "/r", Resource: "r"}}, Resources: map[string][]CfgRes{"r": {{Up: 0}}},
		Down: map[string]any{"readTimeoutSeconds": c.Read, "idleTimeoutSeconds": c.Idle, "roundTripTimeoutSeconds": 20}}
	if c.Trip > 0 {
		cfg.Down["roundTripTimeoutSeconds"] = c.Trip
	}
	var conf *tls.Config
	if c.TLS {
		specs := tlsChain(true, false)
		ders, err := makeChain(specs, time.Now())
		must(err)
		cfg.Down["mode"], cfg.Down["cert"], cfg.Down["key"] = "TLS", chainPEM(ders...), keyPEM(specs[0])
		conf = &tls.Config{ServerName: "j8a.test", RootCAs: poolOf(ders[len(ders)-1])}
	}
	j := startOrFail(env, cfg, startOpt{}, &o)
	if j == nil {
		return
	}
	defer j.stop()
	read, idle := time.Duration(c.Read)*time.Second, time.Duration(c.Idle)*time.Second
	var mu sync.Mutex
	var wg sync.WaitGroup
	fail := func(hang bool, f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		o.failf(f, a...)
		o.Hang = o.Hang || hang
	}
	for _, d := range c.Conns {
		where := fmt.Sprintf("connection %+v with readTimeoutSeconds %d, idleTimeoutSeconds %d, roundTripTimeoutSeconds %d, TLS %v", d, c.Read, c.Idle, cfg.Down["roundTripTimeoutSeconds"], c.TLS)
		o.item(fmt.Sprint(c.Read, c.Idle, c.TLS, d), true, "conn-"+d.Kind)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if strings.HasPrefix(d.Kind, "h2") {
				env.dwnH2(j, c, d, conf, where, fail)
				return
			}
			t0 := time.Now()
			var cn *Conn
			var err error
			if conf != nil && d.Kind != "nothing" {
				cn, err = dialTLS(j.Addr, conf)
			} else {
				cn, err = dial(j.Addr)
			}
			if err != nil {
				fail(true, "%s: cannot connect: %v", where, err)
				return
			}
			defer cn.c.Close()
			if time.Since(t0) > 400*time.Millisecond {
				return // too slow a machine to time anything
			}
			id := hub.newID()
			up := UpResp{Status: 200, Body: BodySpec{"text", 20, 3}}
			if d.Kind == "slowup" {
				up.Delay = d.Wait
			}
			if d.Kind == "unread" || d.Kind == "slowread" {
				up.Body = BodySpec{"rand", dwnBig, uint32(d.Cut)} // more than the sockets hold
			}
			hub.register(id, []UpResp{up})
			// ends waits for the server to hang up
			ends := func(from time.Time, want time.Duration, what string) {
				cn.c.SetReadDeadline(time.Now().Add(want + 3*netLate))
				var err error
				for b := make([]byte, 4096); err == nil; {
					_, err = cn.br.Read(b)
				}
				el := time.Since(from)
				switch {
				case isTimeout(err) || el > want+netLate:
					fail(true, "%s: %s: still open after %v, want %v", where, what, el, want)
				case el < want-netEarly-time.Since(t0)/50:
					fail(false, "%s: %s: closed after %v already, want %v", where, what, el, want)
				}
			}
			ask := func() bool {
				x := Exch{Method: "GET", Target: "/r/x"}
				r := cn.roundTrip(x.raw(id, "j8a.test"), "GET")
				if r.Err != nil || r.Status != 200 {
					fail(true, "%s: request not served: %s", where, r.brief())
					return false
				}
				return true
			}
			x := Exch{Method: "PUT", Target: "/r/x", Body: BodySpec{"text", d.Body, 4}, Framing: "cl"}
			raw := x.raw(id, "j8a.test")
			hdr := strings.Index(string(raw), "\r\n\r\n") + 4
			trickle := func(cut int, stop int) {
				cn.c.SetWriteDeadline(time.Now().Add(read + 3*netLate))
				if _, err := cn.c.Write(raw[:cut]); err != nil || d.Step == 0 {
					return
				}
				go func() {
					for i := cut; i < stop; i++ {
						time.Sleep(time.Duration(d.Step) * time.Millisecond)
						if _, err := cn.c.Write(raw[i : i+1]); err != nil {
							return
						}
					}
				}()
			}
			switch d.Kind {
			case "nothing":
				lim := read
				if c.TLS {
					lim = time.Duration(c.limit()) * time.Second // limits the handshake, too
				}
				ends(t0, lim, "nothing was sent")
			case "head":
				// the header is never completed
				trickle(min(max(d.Cut, 1), hdr-4), hdr-4)
				ends(t0, read, "the header was not completed")
			case "body":
				trickle(hdr+d.Cut, len(raw)-1)
				ends(t0, time.Duration(c.limit())*time.Second, "the body was not completed")
				if n := len(hub.take(id)); n > 0 {
					fail(false, "%s: a request whose body was never completed reached the upstream", where)
				}
			case "pace":
				// in two or three pieces with pauses, within the limit
				k := min(d.Cut*3, len(raw)-1)
				cn.c.Write(raw[:k])
				time.Sleep(time.Duration(d.Wait) * time.Millisecond)
				if time.Since(t0) > time.Duration(c.limit())*time.Second-200*time.Millisecond {
					return
				}
				r := cn.roundTrip(raw[k:], "PUT")
				ups := hub.take(id)
				if r.Err != nil || r.Status != 200 || len(ups) != 1 || len(ups[0].Body) != d.Body {
					fail(true, "%s: sent within %v, %d upstream requests, got %s", where, time.Since(t0), len(ups), r.brief())
				}
			case "idle":
				t1 := time.Now() // on a slow machine the server is idle well before the client knows
				if ask() {
					ends(t1, idle, "idle after a response")
				}
			case "reuse":
				if ask() {
					t1 := time.Now()
					time.Sleep(time.Duration(d.Wait) * time.Millisecond)
					if time.Since(t1) < idle-300*time.Millisecond {
						ask()
					}
				}
			case "second":
				// a second request that is never completed
				if ask() {
					t1 := time.Now()
					trickle(max(min(d.Cut, hdr-4), 4), hdr-4) // with fewer bytes the connection still counts as idle
					ends(t1, read, "the header of the second request was not completed")
				}
			case "slowup":
				ask()
			case "unread", "slowread":
				x := Exch{Method: "GET", Target: "/r/big"}
				raw := cn.c
				if tc, ok := raw.(*tls.Conn); ok {
					raw = tc.NetConn()
				}
				raw.(*net.TCPConn).SetReadBuffer(64 << 10)
				cn.c.SetDeadline(time.Now().Add(clientDeadline))
				if _, err := cn.c.Write(x.raw(id, "j8a.test")); err != nil {
					fail(true, "%s: cannot send: %v", where, err)
					return
				}
				wait := time.Duration(d.Wait) * time.Millisecond
				if d.Kind == "unread" {
					wait = time.Duration(c.Trip)*time.Second + time.Second + 2*netLate
				}
				time.Sleep(wait)
				r := cn.read("GET")
				switch took := time.Since(t0); {
				case d.Kind == "unread" && (r.Err == nil || r.Hang):
					fail(true, "%s: the response was not read for %v, want the client cut off after %d s, got %s", where, wait, c.Trip+1, r.brief())
				case d.Kind == "slowread" && took < time.Duration(c.Trip)*time.Second && (r.Err != nil || r.Status != 200 || len(r.Body) != dwnBig):
					fail(true, "%s: the response was read after %v, within the limit, got %s", where, took, r.brief())
				}
			}
		}()
	}
	wg.Wait()
	hub.mu.Lock()
	clear(hub.scripts)
	hub.mu.Unlock()
	finish(env, j, &o)
	return
}

func init() {
	register(&Prop{ID: "P25", Gen: genNetUpCase, New: func() any { return &NetUpCase{} }, Run: runNetUpCase, NeedBB: true, Quick: 5, Shards: 8, Slow: true, MaxWall: 60 * time.Second,
		Rule: "A case is a proxy with one short limit (socket, read or round trip timeout of 1-2 s, the others far away) and up to 30 requests at once to upstreams that do not accept (full accept queue), accept and never shake hands, or stall before, in or after the header or in the body, drip it byte by byte, do not take the request, recover on a later attempt, or answer. Status, attempts, elapsed time and that stalled connections are hung up on are compared with a model. Non-trivial: a limit fires."})
	register(&Prop{ID: "P27", Gen: genPoolCase, New: func() any { return &PoolCase{} }, Run: runPoolCase, NeedBB: true, Quick: 5, Shards: 8, Slow: true, MaxWall: 80 * time.Second,
		Rule: "A case is a proxy with a generated poolSize and idleTimeoutSeconds, bursts of up to 20 requests that wait for each other upstream, over 1-3 hosts, and up to 25 requests of 15 outcomes (errors, faults, stalls, clients that leave). Idle connections are counted against poolSize, reused, kept for the idle timeout and no longer, and no socket is left in the end. Non-trivial: burst above poolSize, idle-out and leak rounds."})
	register(&Prop{ID: "P29", Gen: genDwnCase, New: func() any { return &DwnCase{} }, Run: runDwnCase, NeedBB: true, Quick: 7, Shards: 8, Slow: true, MaxWall: 60 * time.Second,
		Rule: "A case is a proxy with generated read and idle timeouts in HTTP or TLS mode and up to 30 connections at once that send nothing, never complete a header or body (in trickles), send in time with pauses, stay idle, come back in time, wait for an upstream slower than the read timeout, or take a response of 16 MB late or not at all; in TLS mode also over HTTP/2. Time of closing and service are compared with the configured limits. Non-trivial: all."})
}
