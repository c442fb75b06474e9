//go:build go1.25

package j8a

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

// ---- memory history ----

type vHist struct {
	Start []uint64 // resident sizes the history starts with; 0: no sample yet
	Rss   []uint64
}
type vHistStep struct {
	Len, Cap int
	V        []float64
	High     []bool
	Lines    []string
	Rss      []uint64
}

func vRunHist(t *testing.T, raw json.RawMessage) (any, error) {
	var c vHist
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	sink := &bytes.Buffer{}
	oldLog := log.Logger
	zerolog.SetGlobalLevel(zerolog.DebugLevel)
	log.Logger = zerolog.New(sink)
	defer func() {
		zerolog.SetGlobalLevel(zerolog.Disabled)
		log.Logger = oldLog
	}()
	mk := func(r uint64) sample {
		s := sample{rssBytes: r}
		if r > 0 {
			s.pid = 77
		}
		return s
	}
	h := make(samples, 0)
	for _, r := range c.Start {
		h = append(h, mk(r))
	}
	var out []vHistStep
	for _, r := range c.Rss {
		h.append(mk(r))
		sink.Reset()
		g := h.log()
		st := vHistStep{Len: len(h), Cap: cap(h)}
		for _, x := range g {
			st.V = append(st.V, x.v)
			st.High = append(st.High, x.high)
		}
		for _, x := range h {
			st.Rss = append(st.Rss, x.rssBytes)
		}
		if s := strings.TrimSpace(sink.String()); s != "" {
			st.Lines = strings.Split(s, "\n")
		}
		out = append(out, st)
	}
	return out, nil
}

// ---- gzip ----

type vZip struct {
	Par int
	Ops []vZipOp
}
type vZipOp struct {
	In  []byte
	Un  bool // Gunzip instead of Gzip
	Bad bool // input is not valid gzip, the result is of no interest
}

// play all operations with Par goroutines at once, each result is checked again after everything is over
func vRunZip(t *testing.T, raw json.RawMessage) (any, error) {
	var c vZip
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	res := make([][]byte, len(c.Ops))
	early := make([][]byte, len(c.Ops))
	panics := make([]string, len(c.Ops))
	next := make(chan int, len(c.Ops))
	for i := range c.Ops {
		next <- i
	}
	close(next)
	var wg sync.WaitGroup
	for k := 0; k < c.Par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				func() {
					defer func() {
						if p := recover(); p != nil {
							panics[i] = fmt.Sprint(p)
						}
					}()
					op := c.Ops[i]
					in := append([]byte{}, op.In...)
					var r *[]byte
					if op.Un {
						r = Gunzip(in)
					} else {
						r = Gzip(in)
					}
					if !bytes.Equal(in, op.In) {
						panics[i] = "the input was modified"
					}
					early[i] = append([]byte{}, *r...)
					res[i] = *r
				}()
			}
		}()
	}
	wg.Wait()
	out := make([]string, len(c.Ops))
	for i := range c.Ops {
		switch {
		case panics[i] != "":
			out[i] = "panic: " + panics[i]
		case c.Ops[i].Bad:
		case !bytes.Equal(early[i], res[i]):
			out[i] = "the result changed after it was returned"
		}
	}
	return map[string]any{"Note": out, "Res": res}, nil
}

func init() {
	vOps["hist"] = vRunHist
	vOps["zip"] = vRunZip
}
