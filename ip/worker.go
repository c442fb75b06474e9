//go:build go1.25

package j8a

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime/debug"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

// The worker executes single cases against package internals; it holds no oracle.

type vReq struct {
	Op string          `json:"op"`
	C  json.RawMessage `json:"c"`
}

var vOps = map[string]func(t *testing.T, c json.RawMessage) (any, error){}

func TestVerifWorker(t *testing.T) {
	in := bufio.NewReaderSize(os.NewFile(3, "in"), 1<<20)
	out := os.NewFile(4, "out")
	ID = "0123abcd"
	zerolog.SetGlobalLevel(zerolog.Disabled)
	log.Logger = zerolog.New(io.Discard)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var r vReq
		res := map[string]any{}
		if err := json.Unmarshal(line, &r); err != nil {
			res["err"] = err.Error()
		} else if op := vOps[r.Op]; op == nil {
			res["err"] = "unknown op " + r.Op
		} else {
			func() {
				defer func() {
					if p := recover(); p != nil {
						res["panic"] = fmt.Sprintf("%v\n%s", p, debug.Stack())
					}
				}()
				v, err := op(t, r.C)
				if err != nil {
					res["err"] = err.Error()
				}
				res["r"] = v
			}()
		}
		b, err := json.Marshal(res)
		if err != nil {
			b, _ = json.Marshal(map[string]any{"err": "marshal: " + err.Error()})
		}
		if _, err := out.Write(append(b, '\n')); err != nil {
			return
		}
	}
}

// ---------- simulated exchanges on a fake clock ----------

type vUp struct {
	Hdr      int // ms until the header is there
	Gap      int // ms before each body chunk
	Chunks   int
	Status   int
	H        [][2]string
	Body     []byte
	Err      bool // Do fails after Hdr
	BodyErr  bool // body read fails after its chunks
	Lag      int  // ms between cancellation and the call noticing it
	LateResp bool // once cancelled, hand the response over anyway
}

type vExch struct {
	ID  string
	At  int // ms
	Raw []byte
	Ups []vUp
	Lag int // ms the body comes after the header
}

// vLate delivers its data only after a while
type vLate struct {
	io.Reader
	lag time.Duration
}

func (l *vLate) Read(p []byte) (int, error) {
	time.Sleep(l.lag)
	l.lag = 0
	return l.Reader.Read(p)
}

type vEvent struct {
	At     int
	Path   string
	Jwks   string
	Status int
	Err    bool
	Delay  int // ms per fetch
}

type vSim struct {
	Cfg    string
	X      []vExch
	Events []vEvent
}

type vUpRec struct {
	At     int64 // ms
	Method string
	URL    string
	Hdr    http.Header
	Body   []byte
}

type vXRes struct {
	Status int
	Hdr    http.Header
	Body   []byte
	Start  int64
	End    int64
	Ups    []vUpRec
	Panic  string
	Writes int
}

type vSimRes struct {
	CfgErr  string
	X       []vXRes
	Fetches []vFetch
}

type vFetch struct {
	At   int64
	Path string
}

type vClient struct {
	mu   sync.Mutex
	t0   time.Time
	x    map[string]*vExch
	recs map[string][]vUpRec
}

func (c *vClient) Get(uri string) (*http.Response, error) { return nil, errors.New("unused") }

func (c *vClient) Do(req *http.Request) (*http.Response, error) {
	id := req.Header.Get("X-Verif-Id")
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
	}
	c.mu.Lock()
	x := c.x[id]
	n := len(c.recs[id])
	c.recs[id] = append(c.recs[id], vUpRec{time.Since(c.t0).Milliseconds(), req.Method, req.URL.String(), req.Header.Clone(), body})
	c.mu.Unlock()
	if x == nil || len(x.Ups) == 0 {
		return nil, errors.New("no script")
	}
	if n >= len(x.Ups) {
		n = len(x.Ups) - 1
	}
	u := x.Ups[n]
	ctx := req.Context()
	cancelled := false
	tm := time.NewTimer(time.Duration(u.Hdr) * time.Millisecond)
	select {
	case <-tm.C:
	case <-ctx.Done():
		tm.Stop()
		cancelled = true
		if u.Lag > 0 {
			time.Sleep(time.Duration(u.Lag) * time.Millisecond)
		}
		if !u.LateResp {
			return nil, ctx.Err()
		}
	}
	if u.Err && !cancelled {
		return nil, errors.New("connection reset")
	}
	h := http.Header{}
	for _, kv := range u.H {
		h.Add(kv[0], kv[1])
	}
	return &http.Response{StatusCode: u.Status, Status: fmt.Sprint(u.Status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h,
		Body: &vBody{u: u, ctx: ctx, late: cancelled}, ContentLength: int64(len(u.Body)), Request: req}, nil
}

type vBody struct {
	u    vUp
	ctx  context.Context
	i    int
	off  int
	late bool
	buf  []byte
}

func (b *vBody) Close() error { return nil }
func (b *vBody) Read(p []byte) (int, error) {
	if len(b.buf) > 0 {
		n := copy(p, b.buf)
		b.buf = b.buf[n:]
		return n, nil
	}
	chunks := b.u.Chunks
	if chunks < 1 {
		chunks = 1
	}
	if b.i >= chunks {
		if b.u.BodyErr {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	if b.u.Gap > 0 && !b.late {
		tm := time.NewTimer(time.Duration(b.u.Gap) * time.Millisecond)
		select {
		case <-tm.C:
		case <-b.ctx.Done():
			tm.Stop()
			if b.u.Lag > 0 {
				time.Sleep(time.Duration(b.u.Lag) * time.Millisecond)
			}
			if !b.u.LateResp {
				return 0, b.ctx.Err()
			}
			b.late = true
		}
	}
	end := len(b.u.Body) * (b.i + 1) / chunks
	b.buf = append([]byte{}, b.u.Body[b.off:end]...)
	b.off = end
	b.i++
	if len(b.buf) == 0 {
		return b.Read(p)
	}
	n := copy(p, b.buf)
	b.buf = b.buf[n:]
	return n, nil
}

type vJwksRT struct {
	mu      sync.Mutex
	t0      time.Time
	ev      map[string]vEvent
	fetches []vFetch
}

func (r *vJwksRT) RoundTrip(req *http.Request) (*http.Response, error) {
	r.mu.Lock()
	ev := r.ev[req.URL.Path]
	r.fetches = append(r.fetches, vFetch{time.Since(r.t0).Milliseconds(), req.URL.Path})
	r.mu.Unlock()
	if ev.Delay > 0 {
		select {
		case <-time.After(time.Duration(ev.Delay) * time.Millisecond):
		case <-req.Context().Done():
			return nil, req.Context().Err()
		}
	}
	if ev.Err {
		return nil, errors.New("jwks connection refused")
	}
	st := ev.Status
	if st == 0 {
		st = 200
	}
	return &http.Response{StatusCode: st, Status: fmt.Sprint(st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": []string{"application/json"}}, Body: io.NopCloser(bytes.NewReader([]byte(ev.Jwks))), ContentLength: int64(len(ev.Jwks)), Request: req}, nil
}

// vBoot runs the configuration pipeline the server runs, minus listening.
func vBoot(yml string) (rt *Runtime, msg string) {
	defer func() {
		if p := recover(); p != nil {
			rt, msg = nil, fmt.Sprint(p)
		}
	}()
	config := new(Config).parse([]byte(yml)).
		reApplyResourceSchemes().
		reApplyResourceNames().
		validateJwt().
		validateRoutes().
		compileRoutePaths().
		addDefaultPolicy().
		setDefaultUpstreamParams().
		setDefaultDownstreamParams()
	return &Runtime{Config: *config, Start: time.Now()}, ""
}

func vRunSim(t *testing.T, raw json.RawMessage) (any, error) {
	var s vSim
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	res := &vSimRes{X: make([]vXRes, len(s.X))}
	synctest.Test(t, func(t *testing.T) {
		t0 := time.Now()
		rt := &vJwksRT{t0: t0, ev: map[string]vEvent{}}
		for _, e := range s.Events {
			if e.At <= 0 {
				rt.ev[e.Path] = e
			}
		}
		oldRT := http.DefaultTransport
		http.DefaultTransport = rt
		defer func() { http.DefaultTransport = oldRT }()
		r, msg := vBoot(s.Cfg)
		if r == nil {
			res.CfgErr = msg
			if msg == "" {
				res.CfgErr = "panic"
			}
			return
		}
		Runner = r
		cl := &vClient{t0: t0, x: map[string]*vExch{}, recs: map[string][]vUpRec{}}
		for i := range s.X {
			cl.x[s.X[i].ID] = &s.X[i]
		}
		httpClient = cl
		var wg sync.WaitGroup
		for _, e := range s.Events {
			if e.At <= 0 {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(e.At) * time.Millisecond)
				rt.mu.Lock()
				rt.ev[e.Path] = e
				rt.mu.Unlock()
			}()
		}
		for i := range s.X {
			x := s.X[i]
			out := &res.X[i]
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(x.At) * time.Millisecond)
				cut := bytes.Index(x.Raw, []byte("\r\n\r\n")) + 4
				req, err := http.ReadRequest(bufio.NewReader(io.MultiReader(bytes.NewReader(x.Raw[:cut]), &vLate{bytes.NewReader(x.Raw[cut:]), time.Duration(x.Lag) * time.Millisecond})))
				if err != nil {
					out.Panic = "harness: " + err.Error()
					return
				}
				rec := httptest.NewRecorder()
				out.Start = time.Since(t0).Milliseconds()
				func() {
					defer func() {
						if p := recover(); p != nil {
							out.Panic = fmt.Sprintf("%v\n%s", p, debug.Stack())
						}
					}()
					proxyHandler(rec, req)
				}()
				out.End = time.Since(t0).Milliseconds()
				hr := rec.Result()
				out.Status, out.Hdr = hr.StatusCode, hr.Header
				out.Body, _ = io.ReadAll(hr.Body)
			}()
		}
		wg.Wait()
		time.Sleep(20000 * time.Second) // the bubble stops the clock once this function returns
		synctest.Wait()
		cl.mu.Lock()
		for i, x := range s.X {
			res.X[i].Ups = cl.recs[x.ID]
		}
		cl.mu.Unlock()
		rt.mu.Lock()
		res.Fetches = rt.fetches
		rt.mu.Unlock()
	})
	return res, nil
}

func init() { vOps["sim"] = vRunSim }
