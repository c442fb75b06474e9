//go:build go1.25

package j8a

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"github.com/shirou/gopsutil/process"
)

// The process statistics as the server runs them, over simulated hours and a made up /proc whose
// values change half past every hour.
type vStats struct {
	Pid      int32
	TotalKB  uint64
	Rss, Vms []uint64 // pages in hour k, counted from half past k-1
}

// Samplers that wait for each other's lock stop simulated time for good; cases tell nothing from then on.
var vStatsStuck bool

type vStatsRes struct {
	Ev    []vLogEv
	Stuck bool
}

func vRunStats(t *testing.T, raw json.RawMessage) (any, error) {
	var c vStats
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	if vStatsStuck {
		return vStatsRes{Stuck: true}, nil
	}
	dir, err := os.MkdirTemp("", "vproc")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	oldProc, had := os.LookupEnv("HOST_PROC")
	os.Setenv("HOST_PROC", dir)
	oldLog := log.Logger
	sink := &vSink{}
	zerolog.SetGlobalLevel(zerolog.DebugLevel)
	log.Logger = zerolog.New(sink)
	defer func() {
		zerolog.SetGlobalLevel(zerolog.Disabled)
		log.Logger = oldLog
		if had {
			os.Setenv("HOST_PROC", oldProc)
		} else {
			os.Unsetenv("HOST_PROC")
		}
	}()
	pdir := filepath.Join(dir, fmt.Sprint(c.Pid))
	stat := filepath.Join(pdir, "stat")
	put := func(name, s string) {
		if err := os.WriteFile(name, []byte(s), 0o600); err != nil {
			panic(err)
		}
	}
	if err := os.MkdirAll(pdir, 0o700); err != nil {
		return nil, err
	}
	put(filepath.Join(dir, "meminfo"), fmt.Sprintf("MemTotal: %d kB\nMemFree: %d kB\nMemAvailable: %d kB\nBuffers: 0 kB\nCached: 0 kB\n", c.TotalKB, c.TotalKB/2, c.TotalKB/2))
	mem := func(k int) {
		put(filepath.Join(pdir, "statm"), fmt.Sprintf("%d %d 1 1 0 1 0\n", c.Vms[k], c.Rss[k]))
	}
	mem(0)
	// Sampling takes 2 seconds while there is a stat file and no time otherwise. It is there a minute and two after
	// the start and at the first full hour, so that neither sampler ever coincides with the other one or the log.
	cpu := func(from, to time.Duration) {
		t0 := sink.t0
		time.Sleep(time.Until(t0.Add(from)))
		put(stat, fmt.Sprintf("%d (x) S 1 1 1 0 -1 4194560 100 0 0 0 10 10 0 0 20 0 8 0 100 1000 1000 18446744073709551615 1 1 0 0 0 0 0 0 0 0 0 0 17 0 0 0 0 0 0\n", c.Pid))
		time.Sleep(time.Until(t0.Add(to)))
		if err := os.Remove(stat); err != nil {
			panic(err)
		}
	}
	done := make(chan bool)
	never := make(chan bool)
	go func() {
		synctest.Test(t, func(t *testing.T) {
			sink.t0 = time.Now()
			logProcStats(&process.Process{Pid: c.Pid})
			// half seconds: files never change at the instant they are read
			const half = 500 * time.Millisecond
			cpu(59*time.Second, 63*time.Second)
			cpu(121*time.Second, 125*time.Second)
			for k := 1; k < len(c.Rss); k++ {
				time.Sleep(time.Until(sink.t0.Add(time.Duration(k)*time.Hour - 30*time.Minute + half)))
				mem(k)
				if k == 1 {
					cpu(time.Hour-2*time.Second, time.Hour+3*time.Second)
				}
			}
			time.Sleep(time.Until(sink.t0.Add(time.Duration(len(c.Rss))*time.Hour - 30*time.Minute)))
			synctest.Wait()
			sink.mu.Lock()
			sink.over = true
			sink.mu.Unlock()
			close(done)
			<-never // of no bubble: simulated time stands still from here on
		})
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		vStatsStuck = true
	}
	sink.mu.Lock()
	defer sink.mu.Unlock()
	return vStatsRes{append([]vLogEv{}, sink.ev...), vStatsStuck}, nil
}

func init() { vOps["stats"] = vRunStats }
