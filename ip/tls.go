//go:build go1.25

package j8a

import (
	"crypto/tls"
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

type vTlsCheck struct {
	Chain  [][]byte // leaf first
	Days   int
	Daemon bool
}
type vLogEv struct {
	At   int64 // seconds since the start
	Line string
}
type vTlsCheckRes struct {
	Ev   []vLogEv
	Done bool
}

// a log sink that keeps lines with the (simulated) time they were written at
type vSink struct {
	mu   sync.Mutex
	t0   time.Time
	ev   []vLogEv
	over bool
}

func (s *vSink) Write(p []byte) (int, error) {
	s.mu.Lock()
	over := s.over
	if !over {
		s.ev = append(s.ev, vLogEv{int64(time.Since(s.t0) / time.Second), strings.TrimSpace(string(p))})
	}
	s.mu.Unlock()
	if over {
		runtime.Goexit()
	}
	return len(p), nil
}

// run the certificate health check for a number of simulated days
func vRunTlsCheck(t *testing.T, raw json.RawMessage) (out any, oerr error) {
	var c vTlsCheck
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	res := &vTlsCheckRes{}
	sink := &vSink{}
	oldLog := log.Logger
	zerolog.SetGlobalLevel(zerolog.DebugLevel)
	log.Logger = zerolog.New(sink)
	finished := false
	defer func() {
		zerolog.SetGlobalLevel(zerolog.Disabled)
		log.Logger = oldLog
		if p := recover(); p != nil && !(finished && strings.Contains(fmt.Sprint(p), "deadlock")) {
			panic(p)
		}
		out = res
	}()
	synctest.Test(t, func(t *testing.T) {
		sink.t0 = time.Now()
		conf := &tls.Config{Certificates: []tls.Certificate{{Certificate: c.Chain}}}
		done := make(chan bool)
		go func() {
			defer close(done)
			tlsHealthCheck(conf, c.Daemon)
		}()
		time.Sleep(time.Duration(c.Days)*24*time.Hour + 12*time.Hour)
		synctest.Wait()
		select {
		case <-done:
			res.Done = true
		default:
		}
		sink.mu.Lock()
		res.Ev = sink.ev
		sink.over = true
		sink.mu.Unlock()
		// end the daemon: its next round finds no certificate, or is stopped when it logs
		conf.Certificates = nil
		time.Sleep(1000 * time.Hour)
		finished = true
	})
	return res, nil
}

func init() { vOps["tlscheck"] = vRunTlsCheck }
