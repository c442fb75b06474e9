package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------- configuration model ----------

type CfgRes struct {
	Up     int      `json:"up"` // index of the scripted upstream; -1: explicit Host/Port
	Labels []string `json:"labels,omitempty"`
	Scheme string   `json:"scheme,omitempty"`
	Host   string   `json:"host,omitempty"`
	Port   int      `json:"port,omitempty"`
}
type CfgRoute struct {
	Path      string `json:"path"`
	Resource  string `json:"resource"`
	Transform string `json:"transform,omitempty"`
	Policy    string `json:"policy,omitempty"`
	Jwt       string `json:"jwt,omitempty"`
}
type CfgLW struct {
	Label  string  `json:"label"`
	Weight float64 `json:"weight"`
}
type Cfg struct {
	Routes    []CfgRoute          `json:"routes"`
	Resources map[string][]CfgRes `json:"resources"`
	Policies  map[string][]CfgLW  `json:"policies,omitempty"`
	Jwt       map[string]any      `json:"jwt,omitempty"`
	Down      map[string]any      `json:"down,omitempty"`
	Up        map[string]any      `json:"up,omitempty"`
}

func (c Cfg) doc(port int, hub *Hub) map[string]any {
	down := map[string]any{"port": port}
	for k, v := range c.Down {
		if k == "port" && v == nil {
			delete(down, "port")
			continue
		}
		down[k] = v
	}
	conn := map[string]any{"downstream": down}
	if c.Up != nil {
		conn["upstream"] = c.Up
	}
	routes := []any{}
	for _, r := range c.Routes {
		m := map[string]any{"path": r.Path, "resource": r.Resource}
		if r.Transform != "" {
			m["transform"] = r.Transform
		}
		if r.Policy != "" {
			m["policy"] = r.Policy
		}
		if r.Jwt != "" {
			m["jwt"] = r.Jwt
		}
		routes = append(routes, m)
	}
	res := map[string]any{}
	for name, rs := range c.Resources {
		l := []any{}
		for _, r := range rs {
			host, p := r.Host, r.Port
			if r.Up >= 0 {
				host, p = "127.0.0.1", hub.ports[r.Up]
			}
			url := map[string]any{"host": host, "port": p}
			if r.Scheme != "-" {
				s := r.Scheme
				if s == "" {
					s = "http"
				}
				url["scheme"] = s
			}
			m := map[string]any{"url": url}
			if len(r.Labels) > 0 {
				m["labels"] = r.Labels
			}
			l = append(l, m)
		}
		res[name] = l
	}
	doc := map[string]any{"connection": conn, "routes": routes, "resources": res}
	if len(c.Policies) > 0 {
		doc["policies"] = c.Policies
	}
	if len(c.Jwt) > 0 {
		doc["jwt"] = c.Jwt
	}
	return doc
}

// ---------- process ----------

type J8a struct {
	Port    int
	Addr    string
	cmd     *exec.Cmd
	done    chan struct{}
	err     error
	stderr  *syncBuf
	stdout  *syncBuf
	cfgf    string
	scratch string
	lock    net.Listener
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.b.Len() > 64<<20 {
		return len(p), nil
	}
	return s.b.Write(p)
}
func (s *syncBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

func (e *Env) hub() *Hub {
	if e.hubs == nil {
		h, err := newHub(6)
		if err != nil {
			panic("cannot listen: " + err.Error())
		}
		e.hubs = h
	}
	return e.hubs
}

var portCtr int64

func (e *Env) nextPort() int {
	// outside the ephemeral range (32768+); each shard walks its own stripe
	n := atomic.AddInt64(&portCtr, 1)
	return 20000 + (e.Shard*1400+int(n)+os.Getpid()*7)%12000
}

type startOpt struct {
	env     []string
	viaEnv  bool
	raw     []byte // config bytes verbatim instead of cfg
	dir     string
	args    []string
	noFile  bool
	files   map[string]string // written below dir (a fresh scratch directory) before the start
	useTLS  bool
	port    int
	timeout time.Duration
}

var errExited = fmt.Errorf("j8a exited during startup")

// start launches the real binary. The error is errExited when the process refused the configuration.
func (e *Env) start(cfg Cfg, o startOpt) (*J8a, error) {
	hub := e.hub()
	for try := 0; ; try++ {
		port := e.nextPort()
		if o.port > 0 {
			port = o.port
		} else if l, err := net.Listen("tcp", fmt.Sprintf(":%d", port)); err != nil {
			if try < 200 {
				continue
			}
			return nil, err
		} else {
			l.Close()
		}
		// shards and checks running at the same time keep off each other's ports: an abstract socket is held as a lock
		var lock net.Listener
		if o.port == 0 {
			var err error
			if lock, err = net.Listen("unix", fmt.Sprintf("@verif-j8a-port-%d", port)); err != nil {
				if try < 200 {
					continue
				}
				return nil, err
			}
		}
		var data []byte
		if o.raw != nil {
			data = bytes.ReplaceAll(o.raw, []byte("@PORT@"), []byte(itoa(port)))
		} else {
			data, _ = json.Marshal(cfg.doc(port, hub))
		}
		j := &J8a{Port: port, Addr: fmt.Sprintf("127.0.0.1:%d", port), done: make(chan struct{}), stderr: &syncBuf{}, stdout: &syncBuf{}, lock: lock}
		args := append([]string{}, o.args...)
		env := append(append([]string{"PATH=/usr/bin:/bin", "HOME=/tmp", "HOSTNAME=verifhost"}, ambient(data)...), o.env...)
		for i, e := range env {
			env[i] = strings.ReplaceAll(e, "@PORT@", itoa(port))
		}
		if o.files != nil {
			d, err := os.MkdirTemp(e.Work, "cwd-")
			if err != nil {
				return nil, err
			}
			o.dir = d
			for n, c := range o.files {
				if err := os.WriteFile(filepath.Join(d, n), []byte(strings.ReplaceAll(c, "@PORT@", itoa(port))), 0644); err != nil {
					return nil, err
				}
			}
			j.scratch = d
		}
		if o.viaEnv {
			env = append(env, "J8ACFG_YML="+string(data))
		} else if !o.noFile {
			j.cfgf = filepath.Join(e.Work, fmt.Sprintf("cfg-%d-%d.yml", e.Shard, port))
			if err := os.WriteFile(j.cfgf, data, 0644); err != nil {
				return nil, err
			}
			args = append(args, "-c", j.cfgf)
		}
		j.cmd = exec.Command(e.J8aBin, args...)
		j.cmd.Env = env
		j.cmd.Dir = e.Work
		if o.dir != "" {
			j.cmd.Dir = o.dir
		}
		j.cmd.Stderr = j.stderr
		j.cmd.Stdout = j.stdout
		j.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := j.cmd.Start(); err != nil {
			return nil, err
		}
		go func() { j.err = j.cmd.Wait(); close(j.done) }()
		to := o.timeout
		if to == 0 {
			to = 60 * time.Second
		}
		deadline := time.Now().Add(to)
		for {
			c, err := net.DialTimeout("tcp", j.Addr, time.Second)
			if err == nil {
				c.Close()
				// make sure it is ours that is listening
				select {
				case <-j.done:
				case <-time.After(2 * time.Millisecond):
					return j, nil
				}
			}
			select {
			case <-j.done:
				if strings.Contains(j.stderr.String(), "address already in use") && try < 200 && o.port == 0 {
					goto again
				}
				j.tidy()
				return j, errExited
			case <-time.After(3 * time.Millisecond):
			}
			if time.Now().After(deadline) {
				j.stop()
				return j, fmt.Errorf("j8a did not listen within %v; stderr: %s", to, trunc(j.stderr.String(), 2000))
			}
		}
	again:
		j.tidy()
	}
}

// ambient varies what the environment says about logging and the time zone, neither of which may matter to anything but
// the log. It is a function of the configuration (without its numbers, ports differ from run to run), so that a replay
// runs in the same environment.
func ambient(cfg []byte) []string {
	h := fnv.New32a()
	for _, b := range cfg {
		if b < '0' || b > '9' {
			h.Write([]byte{b})
		}
	}
	n := h.Sum32() >> 4
	return []string{
		"LOGLEVEL=" + []string{"INFO", "INFO", "INFO", "WARN", "DEBUG", "TRACE", "info", "trace"}[n%8],
		"TZ=" + []string{"UTC", "", "Australia/Sydney", "America/New_York"}[n/8%4],
	}
}

func (j *J8a) alive() bool {
	select {
	case <-j.done:
		return false
	default:
		return true
	}
}

func (j *J8a) stop() {
	if j.alive() {
		j.cmd.Process.Kill()
	}
	<-j.done
	j.tidy()
}

func (j *J8a) tidy() {
	if j.lock != nil {
		j.lock.Close()
	}
	if j.cfgf != "" {
		os.Remove(j.cfgf)
	}
	if j.scratch != "" {
		os.RemoveAll(j.scratch)
	}
}

// crashed inspects an unexpectedly dead process. infra=true when it was killed from outside.
func (j *J8a) crashReport() (msg string, infra bool) {
	st := j.cmd.ProcessState
	se := j.stderr.String()
	if ws, ok := st.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		return "j8a was killed from outside (out of memory?)", true
	}
	if strings.Contains(se, "address already in use") {
		return "another process took the port", true
	}
	if i := strings.Index(se, "panic:"); i >= 0 {
		se = se[i:]
	} else if i := strings.Index(se, "fatal error:"); i >= 0 {
		se = se[i:]
	} else if len(se) > 1500 {
		se = se[len(se)-1500:]
	}
	return fmt.Sprintf("the proxy process died (%v): %s", st, trunc(se, 1500)), false
}

// checkAlive records a violation if the process died on its own.
func (j *J8a) checkAlive(o *Outcome) bool {
	if j.alive() {
		return true
	}
	msg, inf := j.crashReport()
	if inf {
		o.Infra = msg
	} else {
		o.failf("%s", msg)
	}
	return false
}

// result of one exchange
type XR struct {
	E    Exch
	ID   string
	Resp DownResp
	Ups  []UpReq
	Conn int
}

// runBatch plays all exchanges with w parallel clients; keepalive reuses connections.
func (e *Env) runBatch(j *J8a, xs []Exch, w int, keepalive bool) []XR {
	return e.runBatchHook(j, xs, w, keepalive, nil)
}

func (e *Env) runBatchHook(j *J8a, xs []Exch, w int, keepalive bool, dialer func() (*Conn, error)) []XR {
	hub := e.hub()
	if dialer == nil {
		dialer = func() (*Conn, error) { return dial(j.Addr) }
	}
	out := make([]XR, len(xs))
	xs = append([]Exch{}, xs...)
	for i := range xs {
		x := xs[i].expand(hub, j)
		xs[i] = x
		out[i].E = x
		out[i].ID = hub.newID()
		hub.register(out[i].ID, x.Ups)
	}
	if w < 1 {
		w = 1
	}
	var idx int64 = -1
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			var c *Conn
			for {
				i := int(atomic.AddInt64(&idx, 1))
				if i >= len(xs) {
					break
				}
				if c == nil {
					var err error
					c, err = dialer()
					if err != nil {
						out[i].Resp = DownResp{Err: fmt.Errorf("dial: %w", err)}
						c = nil
						continue
					}
				}
				raw := xs[i].raw(out[i].ID, "j8a.test")
				out[i].Resp = c.roundTrip(raw, xs[i].Method)
				if !keepalive || out[i].Resp.Err != nil || out[i].Resp.Close || xs[i].Proto == "HTTP/1.0" {
					c.c.Close()
					c = nil
				}
			}
			if c != nil {
				c.c.Close()
			}
		}(k)
	}
	wg.Wait()
	for i := range out {
		out[i].Ups = hub.take(out[i].ID)
	}
	return out
}

// expand replaces @UP@ (first upstream's address) and @ADDR@ (the proxy's) in header values; they are known only at run time.
func (e Exch) expand(h *Hub, j *J8a) Exch {
	r := strings.NewReplacer("@UP@", fmt.Sprintf("127.0.0.1:%d", h.ports[0]), "@ADDR@", j.Addr)
	sub := func(hs []HV) []HV {
		var out []HV
		for _, x := range hs {
			out = append(out, HV{x[0], r.Replace(x[1])})
		}
		return out
	}
	e.Hdrs = sub(e.Hdrs)
	ups := append([]UpResp{}, e.Ups...)
	for i := range ups {
		ups[i].Hdrs = sub(ups[i].Hdrs)
	}
	e.Ups = ups
	return e
}
