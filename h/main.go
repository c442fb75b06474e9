package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

var repo = "/repo" // VERIF_REPO points development runs at a scratch copy

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "PATH", "HOME", "GOPATH", "GOCACHE", "GOWORK", "GODEBUG", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"HOME=/root", "GOPATH=/root/go", "GOCACHE=/root/.cache/go-build", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=1")
}

func goCmd(dir string, args ...string) error {
	cmd := exec.Command("/opt/veriftools/go1.27.3/bin/go", args...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, out)
	}
	return nil
}

func infra(f string, a ...any) {
	fmt.Printf("ERROR: "+f+"\n", a...)
	os.Exit(3)
}

func buildBB(work string, race bool) (string, error) {
	bin := filepath.Join(work, "j8a")
	if race {
		return bin, goCmd(repo, "build", "-race", "-o", bin, "./cmd/j8a")
	}
	return bin, goCmd(repo, "build", "-o", bin, "./cmd/j8a")
}

// buildIP compiles the in-package worker through an overlay; the package's own tests are overlaid away.
func buildIP(work string, race bool) (string, error) {
	rep := map[string]string{}
	olds, _ := filepath.Glob(filepath.Join(repo, "*_test.go"))
	for _, o := range olds {
		rep[o] = ""
	}
	mine, _ := filepath.Glob(filepath.Join(verifDir(), "ip", "*.go"))
	if len(mine) == 0 {
		return "", fmt.Errorf("no in-package worker sources")
	}
	for _, m := range mine {
		b := strings.TrimSuffix(filepath.Base(m), ".go")
		rep[filepath.Join(repo, "zz_verif_"+b+"_test.go")] = m
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(work, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(work, "ipworker")
	args := []string{"test", "-vet=off", "-c", "-overlay", ovf, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	return bin, goCmd(repo, append(args, ".")...)
}

func loadKnown() map[string]bool {
	m := map[string]bool{}
	b, _ := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		// finding: <id> property=<Pxx> <text>
		if strings.HasPrefix(l, "finding: ") {
			f := strings.Fields(l)
			if len(f) > 1 {
				m[f[1]] = true
			}
		}
	}
	return m
}

func knownText(id string) string {
	b, _ := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 2 && f[0] == "finding:" && f[1] == id {
			return strings.Join(f[2:], " ")
		}
	}
	return ""
}

func main() {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repo = d
	}
	testing.Init()
	flag.CommandLine.Parse(nil)
	if len(os.Args) < 3 {
		fmt.Println("usage: vh check|shard|replay ID [file]")
		os.Exit(3)
	}
	id := os.Args[2]
	p := props[id]
	if p == nil {
		infra("unknown property %s", id)
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(p, seed, tier))
	case "shard":
		shard(p, seed, tier)
	case "replay":
		os.Exit(replay(p, os.Args[3], seed, tier))
	default:
		infra("unknown command")
	}
}

func prepare(p *Prop) (work string, bb, ip string, err error) {
	work, err = os.MkdirTemp("", "vh-"+p.ID+"-")
	if err != nil {
		return
	}
	os.Chmod(work, 0755)
	var wg sync.WaitGroup
	var e1, e2 error
	if p.NeedBB {
		wg.Add(1)
		go func() { defer wg.Done(); bb, e1 = buildBB(work, p.Race) }()
	}
	if p.NeedIP {
		wg.Add(1)
		go func() { defer wg.Done(); ip, e2 = buildIP(work, p.Race) }()
	}
	wg.Wait()
	if e1 != nil {
		err = e1
	} else if e2 != nil {
		err = e2
	}
	return
}

func newEnv(work, bb, ip string, shardNo int, seed uint64, tier string) *Env {
	return &Env{J8aBin: bb, IPBin: ip, Work: work, Shard: shardNo, Seed: seed, Tier: tier, Known: loadKnown()}
}

func shard(p *Prop, seed uint64, tier string) {
	n, _ := strconv.Atoi(os.Getenv("VH_SHARD"))
	checks, _ := strconv.Atoi(os.Getenv("VH_CHECKS"))
	env := newEnv(os.Getenv("VH_WORK"), os.Getenv("VH_BB"), os.Getenv("VH_IP"), n, seed, tier)
	res := runShard(p, env, checks)
	env.close()
	b, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(env.Work, fmt.Sprintf("res-%d.json", n)), b, 0644); err != nil {
		os.Exit(3)
	}
	os.Exit(0)
}

func check(p *Prop, seed uint64, tier string) int {
	start := time.Now()
	work, bb, ip, err := prepare(p)
	if work != "" && os.Getenv("VH_KEEP") == "" {
		defer os.RemoveAll(work)
	}
	if err != nil {
		fmt.Println("ERROR: build failed:", err)
		return 3
	}
	shards := p.Shards
	if shards == 0 {
		shards = 4
	}
	checks := p.Quick
	if tier == "thorough" {
		checks = p.Thorough
		if checks == 0 {
			checks = p.Quick * 15
		}
		if shards < 8 {
			shards = 8
		}
	}
	if s := os.Getenv("VH_N"); s != "" {
		checks, _ = strconv.Atoi(s)
	}
	if n, _ := strconv.Atoi(os.Getenv("VH_DIV")); n > 0 {
		checks = checks/n + 1
	}
	if s := os.Getenv("VH_SHARDS"); s != "" {
		shards, _ = strconv.Atoi(s)
	}
	self, _ := os.Executable()
	results := make([]*ShardResult, shards)
	errs := make([]string, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command(self, "shard", p.ID)
			cmd.Env = append(os.Environ(), fmt.Sprintf("VH_SHARD=%d", i), fmt.Sprintf("VH_CHECKS=%d", checks),
				"VH_WORK="+work, "VH_BB="+bb, "VH_IP="+ip, fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier)
			var out bytes.Buffer
			cmd.Stdout = &out
			cmd.Stderr = &out
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
			err := cmd.Start()
			if err == nil {
				lim := 840 * time.Second
				if tier == "thorough" {
					lim = 3 * time.Hour
				}
				tm := time.AfterFunc(lim, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
				err = cmd.Wait()
				tm.Stop()
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			}
			if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 77 {
				fmt.Printf("VIOLATION property=%s replay=none\n%s\n", p.ID, out.String())
				os.Exit(1)
			}
			b, rerr := os.ReadFile(filepath.Join(work, fmt.Sprintf("res-%d.json", i)))
			if err != nil || rerr != nil {
				errs[i] = fmt.Sprintf("shard %d: %v %v\n%s", i, err, rerr, trunc(out.String(), 4000))
				return
			}
			r := &ShardResult{}
			if e := json.Unmarshal(b, r); e != nil {
				errs[i] = e.Error()
				return
			}
			if os.Getenv("VH_DEBUG") != "" {
				fmt.Print(out.String())
			}
			results[i] = r
		}(i)
	}
	wg.Wait()
	// merge
	nt := map[string]bool{}
	labels := map[string]int{}
	known := map[string]int{}
	var samples []json.RawMessage
	evals, cases, inconcl, trc := 0, 0, 0, 0
	viols := 0
	var vio *ShardResult
	infraMsg := ""
	for i, r := range results {
		if r == nil {
			infraMsg = errs[i]
			continue
		}
		for k := range r.NonTrivial {
			nt[k] = true
		}
		for k, v := range r.Labels {
			labels[k] += v
		}
		for k, v := range r.Known {
			known[k] += v
		}
		if len(samples) < 4 && len(r.Samples) > 0 {
			samples = append(samples, r.Samples[0])
		}
		evals += r.Evaluations
		cases += r.Cases
		inconcl += r.Inconcl
		if r.Truncated {
			trc++
		}
		if r.Infra != "" {
			infraMsg = fmt.Sprintf("shard %d: %s", r.Shard, r.Infra)
		}
		if r.Viol != "" {
			viols++
			if vio == nil || len(r.ViolCase) < len(vio.ViolCase) {
				vio = r
			}
		}
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": int64(seed), "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(nt), "rule": p.Rule, "samples": samples,
			"cases": cases, "shards": shards, "labels": labels, "inconclusive_hangs": inconcl,
			"shards_stopped_by_wall_cap": trc, "known_finding_hits": known, "exhaustive": false,
		},
		"assumptions": p.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  viols,
	}
	if p.Assume == nil {
		delete(ev, "assumptions")
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", p.ID+".json"), eb, 0644); err != nil {
		fmt.Println("ERROR:", err)
		return 3
	}
	fmt.Printf("%s tier=%s seed=%d cases=%d evaluations=%d nontrivial=%d wall=%.1fs\n", p.ID, tier, seed, cases, evals, len(nt), time.Since(start).Seconds())
	if os.Getenv("VH_LABELS") != "" {
		for _, k := range sortedKeys(labels) {
			fmt.Printf("   %-40s %d\n", k, labels[k])
		}
	}
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: %s\n", knownText(k))
	}
	if vio != nil {
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0755)
		f := filepath.Join(dir, fmt.Sprintf("%s-seed%d-%s.json", p.ID, seed, tier))
		rb, _ := json.MarshalIndent(map[string]any{"property": p.ID, "message": vio.Viol, "case": vio.ViolCase}, "", " ")
		os.WriteFile(f, rb, 0644)
		fmt.Printf("detail: %s\n", trunc(oneLine(vio.Viol), 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
		return 1
	}
	if infraMsg != "" {
		fmt.Println("ERROR:", infraMsg)
		return 3
	}
	if cases == 0 {
		fmt.Println("ERROR: nothing explored")
		return 3
	}
	return 0
}

func replay(p *Prop, file string, seed uint64, tier string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		infra("%v", err)
	}
	var r struct {
		Case json.RawMessage `json:"case"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		infra("%v", err)
	}
	work, bb, ip, err := prepare(p)
	defer os.RemoveAll(work)
	if err != nil {
		fmt.Println("ERROR: build failed:", err)
		return 3
	}
	env := newEnv(work, bb, ip, 0, seed, tier)
	defer env.close()
	for i := 0; i < 3; i++ {
		c := p.New()
		if err := json.Unmarshal(r.Case, c); err != nil {
			infra("%v", err)
		}
		o := safeRun(p, env, c)
		if o.Infra != "" {
			fmt.Println("ERROR:", o.Infra)
			return 3
		}
		if o.Viol != "" {
			fmt.Println("detail:", o.Viol)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
			return 1
		}
	}
	fmt.Println("replay: property held")
	return 0
}
