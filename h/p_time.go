package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	"pgregory.net/rapid"
)

// mirror of the worker's types
type vUp struct {
	Hdr      int
	Gap      int
	Chunks   int
	Status   int
	H        [][2]string
	Body     []byte
	Err      bool
	BodyErr  bool
	Lag      int
	LateResp bool
}
type vExch struct {
	ID  string
	At  int
	Raw []byte
	Ups []vUp
	Lag int
}
type vEvent struct {
	At     int
	Path   string
	Jwks   string
	Status int
	Err    bool
	Delay  int
}
type vSim struct {
	Cfg    string
	X      []vExch
	Events []vEvent
}
type vUpRec struct {
	At     int64
	Method string
	URL    string
	Hdr    map[string][]string
	Body   []byte
}
type vXRes struct {
	Status int
	Hdr    map[string][]string
	Body   []byte
	Start  int64
	End    int64
	Ups    []vUpRec
	Panic  string
}
type vSimRes struct {
	CfgErr  string
	X       []vXRes
	Fetches []vFetch
}
type vFetch struct {
	At   int64
	Path string
}

// ---- P07 (timeouts) and P08 (attempt isolation) on a fake clock ----

type SimUp struct {
	Hdr, Gap, Chunks int
	Status           int
	Fail             string // "", err, bodyerr
	Body             int
	Gz               bool
	Lag              int
	LateResp         bool
}
type SimReq struct {
	At     int
	Method string
	AE     string
	Ups    []SimUp
	Lag    int `json:",omitempty"` // ms the body comes after the header
}
type SimCase struct {
	Read, RT, Max int // seconds, seconds, attempts
	Reqs          []SimReq
}

// distinct odd millisecond parts keep events of the model from coinciding with the whole-second timeouts
func genSimUp(t *rapid.T, read int, late bool) SimUp {
	u := SimUp{Status: rapid.SampledFrom([]int{200, 200, 201, 404, 302, 503, 500}).Draw(t, "st"), Chunks: intR(t, "chunks", 1, 4), Body: intR(t, "body", 0, 400)}
	switch rapid.IntRange(0, 5).Draw(t, "speed") {
	case 0, 1:
		u.Hdr = intR(t, "fast", 0, 9)*100 + 37
	case 2:
		u.Hdr = intR(t, "slow", 0, read*10-1)*100 + 37
	case 3: // header never in time
		u.Hdr = read*1000 + intR(t, "over", 0, 40)*100 + 37
	case 4: // body too slow
		u.Hdr = 37
		u.Gap = (read*1000/u.Chunks + intR(t, "gap", 1, 20)*100)
	case 5:
		u.Hdr, u.Gap = intR(t, "h", 0, 5)*100+37, intR(t, "g", 0, 5)*100
	}
	switch rapid.IntRange(0, 7).Draw(t, "fail") {
	case 0:
		u.Fail = "err"
	case 1:
		u.Fail = "bodyerr"
	}
	u.Gz = chance(t, "gz", 25)
	if late {
		u.Lag = rapid.SampledFrom([]int{0, 13, 113, 513, 1113, 3013}).Draw(t, "lag")
		u.LateResp = rapid.Bool().Draw(t, "late")
	}
	return u
}

func genSim(late bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		c := &SimCase{Read: intR(t, "read", 1, 6), RT: intR(t, "rt", 1, 20), Max: intR(t, "max", 1, 5)}
		if late && c.Max < 2 {
			c.Max = 2
		}
		c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SimReq {
			r := SimReq{At: intR(t, "at", 0, 50) * 100, Method: rapid.SampledFrom([]string{"GET", "GET", "PUT", "DELETE", "POST", "OPTIONS", "TRACE"}).Draw(t, "m"), AE: rapid.SampledFrom([]string{"", "gzip", "identity"}).Draw(t, "ae")}
			if inList(r.Method, "PUT", "POST") && chance(t, "upload", 30) {
				r.Lag = intR(t, "lag", 0, c.RT*10+5)*100 + 51
			}
			r.Ups = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SimUp { return genSimUp(t, c.Read, late) }), 1, 5).Draw(t, "ups")
			return r
		}), 1, 6).Draw(t, "reqs")
		return c
	}
}

func simBody(reqNo, att, n int) []byte {
	return []byte(fmt.Sprintf("<%d.%d>", reqNo, att) + string(BodySpec{"text", n, uint32(reqNo*100 + att)}.bytes()))
}

// simTol (ms) is how far simulated instants may lie from the model's.
const simTol = 25

type simWant struct {
	end      int // ms after start
	status   int
	ups      []int // start of every attempt
	okAt     int   // attempt whose response is passed on, or -1
	why      string
	ambig    bool
	timeouts int
}

// simModel is the reference: attempts run one after the other, each limited by the upstream read timeout,
// all together by the round trip timeout.
func simModel(c *SimCase, r SimReq) (w simWant) {
	read, rt := c.Read*1000, c.RT*1000
	limit := 1
	if repeatable(r.Method) {
		limit = c.Max
	}
	t := r.Lag
	w.okAt = -1
	if t > rt {
		w.end, w.status, w.why = t, 504, "upload"
		return
	}
	for n := 1; ; n++ {
		u := r.Ups[min(n-1, len(r.Ups)-1)]
		w.ups = append(w.ups, t)
		d := u.Hdr
		if u.Fail != "err" {
			d += u.Gap * max(1, u.Chunks)
		}
		timedOut := d > read
		fin := t + min(d, read)
		if d == read || fin == rt {
			w.ambig = true
		}
		if fin > rt {
			w.end, w.status, w.why = rt, 504, "roundtrip"
			return
		}
		t = fin
		if timedOut {
			w.timeouts++
		} else if u.Fail == "" && u.Status < 500 {
			w.end, w.status, w.okAt, w.why = t, u.Status, n-1, "response"
			return
		}
		if n >= limit {
			w.end, w.status, w.why = t, 502, "exhausted"
			if timedOut {
				w.status, w.why = 504, "upstream-timeout"
			}
			return
		}
	}
}

func runSim(id string) func(env *Env, ci any) Outcome {
	return func(env *Env, ci any) (o Outcome) {
		c := ci.(*SimCase)
		cfg := map[string]any{
			"connection": map[string]any{"downstream": map[string]any{"roundTripTimeoutSeconds": c.RT, "port": 8080}, "upstream": map[string]any{"readTimeoutSeconds": c.Read, "maxAttempts": c.Max}},
			"routes":     []any{map[string]any{"path": "/s", "resource": "r"}},
			"resources":  map[string]any{"r": []any{map[string]any{"url": map[string]any{"scheme": "http", "host": "up", "port": 80}}}},
		}
		cj, _ := json.Marshal(cfg)
		s := vSim{Cfg: string(cj)}
		for i, r := range c.Reqs {
			e := Exch{Method: r.Method, Target: fmt.Sprintf("/s/%d", i), Body: BodySpec{"text", 20, uint32(i)}}
			if repeatable(r.Method) && r.Method != "PUT" {
				e.Body = BodySpec{}
			} else {
				e.Framing = "cl"
			}
			if r.AE != "" {
				e.Hdrs = []HV{{"Accept-Encoding", r.AE}}
			}
			x := vExch{ID: fmt.Sprintf("s%d", i), At: r.At}
			x.Raw, x.Lag = e.raw(x.ID, "h"), r.Lag
			for a, u := range r.Ups {
				v := vUp{Hdr: u.Hdr, Gap: u.Gap, Chunks: u.Chunks, Status: u.Status, Err: u.Fail == "err", BodyErr: u.Fail == "bodyerr", Lag: u.Lag, LateResp: u.LateResp}
				v.Body = simBody(i, a, u.Body)
				v.H = [][2]string{{"X-From", fmt.Sprintf("%d.%d", i, a)}, {fmt.Sprintf("X-Only-%d", a), "1"}}
				if u.Gz {
					v.Body = gz(v.Body)
					v.H = append(v.H, [2]string{"Content-Encoding", "gzip"})
				}
				x.Ups = append(x.Ups, v)
			}
			s.X = append(s.X, x)
		}
		var res vSimRes
		if !env.ipRun(&o, "sim", s, &res) {
			return
		}
		if res.CfgErr != "" {
			o.failf("valid configuration refused: %s", res.CfgErr)
			return
		}
		for i, r := range c.Reqs {
			w := simModel(c, r)
			got := res.X[i]
			where := fmt.Sprintf("readTimeout=%ds roundTrip=%ds maxAttempts=%d %s body %dms after the header, attempts=%+v", c.Read, c.RT, c.Max, r.Method, r.Lag, r.Ups)
			if got.Panic != "" {
				o.failf("%s: handler panicked: %s", where, trunc(got.Panic, 1500))
				continue
			}
			if w.ambig {
				o.item(where, false, "tie")
				continue
			}
			late := false
			for k := range w.ups {
				u := r.Ups[min(k, len(r.Ups)-1)]
				late = late || (w.timeouts > 0 && k < len(w.ups)-1 && (u.Lag > 0 || u.LateResp))
			}
			nt := w.timeouts > 0 || w.why == "roundtrip" || w.why == "upload"
			if id == "P08" {
				nt = late
			}
			o.item(where, nt, "ends-"+w.why, fmt.Sprintf("attempts-%d", len(w.ups)), fmt.Sprintf("timeouts-%d", w.timeouts))
			if got.Status != w.status {
				o.failf("%s: status %d, want %d (%s)", where, got.Status, w.status, w.why)
				continue
			}
			if el := int(got.End - got.Start); el < w.end-simTol || el > w.end+simTol {
				o.failf("%s: answered after %d ms, want %d ms (%s)", where, el, w.end, w.why)
			}
			if len(got.Ups) != len(w.ups) {
				o.failf("%s: %d upstream attempts, want %d", where, len(got.Ups), len(w.ups))
				continue
			}
			for k, u := range got.Ups {
				if d := int(u.At-got.Start) - w.ups[k]; d < -simTol || d > simTol {
					o.failf("%s: attempt %d started %d ms after the request, want %d", where, k+1, u.At-got.Start, w.ups[k])
				}
				if u.Method != r.Method || u.URL != fmt.Sprintf("http://up:80/s/%d", i) {
					o.failf("%s: attempt %d was %s %s", where, k+1, u.Method, u.URL)
				}
			}
			d := DownResp{Status: got.Status, Hdr: got.Hdr, Body: got.Body}
			e := Exch{Method: r.Method}
			if r.AE != "" {
				e.Hdrs = []HV{{"Accept-Encoding", r.AE}}
			}
			if w.okAt < 0 || got.Status >= 400 {
				errShape(&o, where, e, d, w.status, false)
				if x := got.Hdr["X-From"]; len(x) > 0 {
					o.failf("%s: the proxy's own error response carries upstream header X-From %v", where, x)
				}
				continue
			}
			a := min(w.okAt, len(r.Ups)-1)
			if x := got.Hdr["X-From"]; len(x) != 1 || x[0] != fmt.Sprintf("%d.%d", i, a) {
				o.failf("%s: response headers are from %v, want attempt %d.%d", where, x, i, a)
			}
			b, err := decoded(d)
			if err != nil || !bytes.Equal(b, simBody(i, a, r.Ups[a].Body)) {
				o.failf("%s: response body %q (err %v, Content-Encoding %v), want that of attempt %d.%d", where, trunc(string(b), 60), err, got.Hdr["Content-Encoding"], i, a)
			}
			for k := range r.Ups {
				if k != a && len(got.Hdr[fmt.Sprintf("X-Only-%d", k)]) > 0 {
					o.failf("%s: header of attempt %d in the response of attempt %d", where, k, a)
				}
			}
		}
		return
	}
}

func init() {
	register(&Prop{ID: "P07", Gen: genSim(false), New: func() any { return &SimCase{} }, Run: runSim("P07"), NeedIP: true, Quick: 2500, Shards: 6,
		Rule:   "A case is a set of timeouts (upstream read 1-6 s, round trip 1-20 s), maxAttempts 1-5 and 1-6 overlapping requests whose body may come late and whose upstream attempts have generated header delays, body chunk gaps and faults; the real handler runs on a simulated clock and status, answer time, number and start time of attempts are compared with a timeline model (tolerance 25 ms of simulated time). Non-trivial: at least one attempt or the round trip times out.",
		Assume: []string{"attempts run on testing/synctest's simulated clock through the package's HTTPClient seam", "schedules where two events of the model fall on the same millisecond are not judged"}})
	register(&Prop{ID: "P08", Gen: genSim(true), New: func() any { return &SimCase{} }, Run: runSim("P08"), NeedIP: true, Quick: 2500, Shards: 6,
		Rule:   "As P07 with maxAttempts 2-5, but a cancelled upstream call notices its cancellation only after a lag (0..3 s), and may then still hand over its response or body; the client's response must be entirely that of the attempt the model selects. Non-trivial: an earlier attempt timed out and returned late.",
		Assume: []string{"the HTTPClient seam may return late after cancellation"}})
}

func mustJSON(v any) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}
