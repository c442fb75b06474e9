package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
)

// ipWorker drives the in-package worker process over a pipe.
type ipWorker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	outf *os.File
	err  *syncBuf
	done chan struct{}
}

func (e *Env) startIP(extraEnv ...string) (*ipWorker, error) {
	w := &ipWorker{err: &syncBuf{}, done: make(chan struct{})}
	r1, w1, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	r2, w2, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	w.cmd = exec.Command(e.IPBin, "-test.run", "^TestVerifWorker$", "-test.timeout", "0")
	w.cmd.ExtraFiles = []*os.File{r1, w2}
	w.cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=/tmp", "GODEBUG=asynctimerchan=0", "GOTRACEBACK=all", "GORACE=halt_on_error=1"}, extraEnv...)
	w.cmd.Dir = e.Work
	w.cmd.Stderr = w.err
	w.cmd.Stdout = w.err
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	r1.Close()
	w2.Close()
	w.in, w.outf, w.out = w1, r2, bufio.NewReaderSize(r2, 1<<20)
	go func() { w.cmd.Wait(); close(w.done) }()
	return w, nil
}

func (w *ipWorker) stop() {
	w.in.Close()
	select {
	case <-w.done:
	case <-time.After(2 * time.Second):
		w.cmd.Process.Kill()
		<-w.done
	}
	w.outf.Close()
}

// ipCall runs one case in the worker. crash is set when the worker process died on it.
func (e *Env) ipCall(op string, c, out any) (crash string, infra string) {
	if e.ip == nil {
		w, err := e.startIP()
		if err != nil {
			return "", err.Error()
		}
		e.ip = w
	}
	w := e.ip
	b, err := json.Marshal(map[string]any{"op": op, "c": c})
	if err != nil {
		return "", err.Error()
	}
	type rd struct {
		b   []byte
		err error
	}
	ch := make(chan rd, 1)
	go func() {
		w.in.Write(append(b, '\n'))
		l, err := w.out.ReadBytes('\n')
		ch <- rd{l, err}
	}()
	var r rd
	select {
	case r = <-ch:
	case <-time.After(120 * time.Second):
		w.cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-w.done:
		case <-time.After(5 * time.Second):
			w.cmd.Process.Kill()
			<-w.done
		}
		e.ip = nil
		return "HANG: no result within 120s: " + trunc(w.err.String(), 6000), ""
	}
	if r.err != nil {
		<-w.done
		e.ip = nil
		if ws, ok := w.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			return "", "worker killed"
		}
		s := w.err.String()
		for _, m := range []string{"panic:", "fatal error:", "WARNING: DATA RACE", "deadlock"} {
			if i := strings.Index(s, m); i >= 0 {
				s = s[i:]
				break
			}
		}
		return trunc(s, 3000), ""
	}
	var res struct {
		Err   string
		Panic string
		R     json.RawMessage
	}
	if err := json.Unmarshal(r.b, &res); err != nil {
		return "", fmt.Sprintf("worker output: %v: %s", err, trunc(string(r.b), 300))
	}
	if res.Err != "" {
		return "", "worker: " + res.Err
	}
	if res.Panic != "" {
		return trunc(res.Panic, 3000), ""
	}
	dec := json.NewDecoder(bytes.NewReader(res.R))
	if err := dec.Decode(out); err != nil {
		return "", err.Error()
	}
	return "", ""
}

// ipRun is ipCall with the outcome filled in; false means stop.
func (e *Env) ipRun(o *Outcome, op string, c, out any) bool {
	crash, inf := e.ipCall(op, c, out)
	if inf != "" {
		o.Infra = inf
		return false
	}
	if crash != "" {
		o.failf("the code under test crashed: %s", crash)
		if strings.HasPrefix(crash, "HANG") {
			o.Hang = true
		}
		return false
	}
	return true
}
