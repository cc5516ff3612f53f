package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	exitViolation = 1
	exitBroken    = 3
	exitRace      = 66
	exitHang      = 77
	exitMemory    = 78
	exitDeadlock  = 79
	heapLimit     = 3 << 30
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vmon check|worker|replay|list ...")
		os.Exit(exitBroken)
	}
	if sub, ok := subprocesses[os.Args[1]]; ok {
		sub(os.Args[2:])
		return
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "list":
		ids := []string{}
		for id, p := range registry {
			if p.Race {
				id += " race"
			}
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(exitBroken)
	}
}

// subprocesses are commands the harness runs on itself to contain fatal errors.
var subprocesses = map[string]func(args []string){}

// ---- worker ----

type progress struct{ mem []byte }

func openProgress(name string) (*progress, error) {
	f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err = f.Truncate(16); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	return &progress{mem}, err
}

func (p *progress) set(stage, idx int) {
	binary.LittleEndian.PutUint64(p.mem, uint64(stage)<<40|uint64(idx)+1)
}
func (p *progress) get() (stage, idx int) {
	v := binary.LittleEndian.Uint64(p.mem)
	if v == 0 {
		return -1, -1
	}
	v--
	return int(v >> 40), int(v & (1<<40 - 1))
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// watchdog ends the process when a case uses too much CPU time or memory or when
// all of its goroutines are blocked for good. It judges by CPU time used and by
// goroutine states, never by how long something took on the clock.
func watchdog(p *Prop, prog *progress, limitFactor int) {
	lastS, lastI := -2, -2
	var start time.Duration
	var wall time.Time
	blocked := 0
	for {
		time.Sleep(200 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapInuse+ms.StackInuse > uint64(heapLimit*limitFactor) {
			fmt.Fprintf(os.Stderr, "memory limit: heap in use %d stack in use %d\n", ms.HeapInuse, ms.StackInuse)
			os.Exit(exitMemory)
		}
		s, i := prog.get()
		if s != lastS || i != lastI || s < 0 {
			lastS, lastI, start, wall, blocked = s, i, cpuTime(), time.Now(), 0
			continue
		}
		limit := p.Stages[s].CPULimit
		if limit == 0 {
			limit = 30
		}
		if cpuTime()-start > time.Duration(limit*limitFactor)*time.Second {
			buf := make([]byte, 1<<16)
			fmt.Fprintf(os.Stderr, "CPU limit: case used more than %ds of CPU time\n%s\n", limit*limitFactor, buf[:runtime.Stack(buf, true)])
			os.Exit(exitHang)
		}
		if time.Since(wall) > 10*time.Second {
			if allBlocked() {
				if blocked++; blocked > 10 {
					buf := make([]byte, 1<<16)
					fmt.Fprintf(os.Stderr, "deadlock: all goroutines are blocked\n%s\n", buf[:runtime.Stack(buf, true)])
					os.Exit(exitDeadlock)
				}
			} else {
				blocked = 0
			}
		}
	}
}

// allBlocked checks that every goroutine but the caller waits for a lock or a channel.
func allBlocked() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	running := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.HasPrefix(g, "goroutine ") {
			continue
		}
		head := g
		if i := strings.IndexByte(g, '\n'); i > 0 {
			head = g[:i]
		}
		switch {
		case strings.Contains(head, "sync."), strings.Contains(head, "semacquire"),
			strings.Contains(head, "chan receive"), strings.Contains(head, "chan send"), strings.Contains(head, "select"):
		default:
			running++
		}
	}
	return running <= 1
}

func workerSetup() {
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(2 << 30)
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	out := fs.String("out", "", "")
	prog := fs.String("progress", "", "")
	scratch := fs.String("scratch", "", "")
	skip := fs.String("skip", "", "")
	only := fs.String("only", "", "") // stage:idx
	factor := fs.Int("factor", 1, "")
	fs.Parse(args)
	workerSetup()
	p := registry[*id]
	pr, err := openProgress(*prog)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitBroken)
	}
	self, _ := os.Executable()
	env := &Env{Tier: *tier, Scratch: *scratch, Self: self, Seed: *seed, Replay: *only != ""}
	go watchdog(p, pr, *factor)
	res := newResult()
	skips := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		skips[s] = true
	}
	known := loadKnown()
run:
	for si := range p.Stages {
		st := &p.Stages[si]
		n := p.cases(st, *tier)
		for i := 0; i < n; i++ {
			if *only != "" {
				if *only != fmt.Sprintf("%d:%d", si, i) {
					continue
				}
			} else if (i+si)%*shards != *shard || skips[fmt.Sprintf("%d:%d", si, i)] {
				continue
			}
			pr.set(si, i)
			if v := runCase(p, st, i, env, res); v != nil {
				if v.Key != "" && known[p.ID+" "+v.Key] != "" {
					res.Known[v.Key] = known[p.ID+" "+v.Key]
					continue
				}
				res.Violations = append(res.Violations, *v)
				if len(res.Violations) >= 3 {
					break run
				}
			}
		}
	}
	f, err := os.Create(*out)
	if err == nil {
		w := bufio.NewWriter(f)
		err = json.NewEncoder(w).Encode(res)
		if e := w.Flush(); err == nil {
			err = e
		}
		if e := f.Close(); err == nil {
			err = e
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitBroken)
	}
}

// ---- known findings ----

func verifDir() string {
	if d := os.Getenv("VMON_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// loadKnown reads lines of the form "known: property=ID key=KEY description".
func loadKnown() map[string]string {
	known := map[string]string{}
	data, _ := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	for _, line := range strings.Split(string(data), "\n") {
		if f := strings.SplitN(line, " ", 4); len(f) == 4 && f[0] == "known:" &&
			strings.HasPrefix(f[1], "property=") && strings.HasPrefix(f[2], "key=") {
			known[f[1][len("property="):]+" "+f[2][len("key="):]] = f[3]
		}
	}
	return known
}

// ---- supervisor ----

type workerRun struct {
	res    *Result
	viol   *Violation
	broken string
}

func runWorker(p *Prop, env *Env, shard, shards int, only string, factor int, skip []string) (r workerRun, code int, stage, idx int, stderr string) {
	name := fmt.Sprintf("%s-%d-%d", p.ID, shard, time.Now().UnixNano())
	out := filepath.Join(env.Scratch, name+".json")
	prog := filepath.Join(env.Scratch, name+".progress")
	args := []string{"worker", "-prop", p.ID, "-tier", env.Tier, "-seed", fmt.Sprint(env.Seed), "-shard", fmt.Sprint(shard),
		"-shards", fmt.Sprint(shards), "-out", out, "-progress", prog, "-scratch", env.Scratch, "-factor", fmt.Sprint(factor), "-skip", strings.Join(skip, ",")}
	if only != "" {
		args = append(args, "-only", only)
	}
	cmd := exec.Command(env.Self, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=2")
	if shards > 1 {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	err := cmd.Run()
	stage, idx = -1, -1
	if b, e := os.ReadFile(prog); e == nil && len(b) >= 8 {
		stage, idx = (&progress{b}).get()
	}
	os.Remove(prog)
	stderr = eb.String()
	if err == nil {
		b, e := os.ReadFile(out)
		os.Remove(out)
		r.res = newResult()
		if e == nil {
			e = json.Unmarshal(b, r.res)
		}
		if e != nil {
			r.broken = e.Error()
		}
		return
	}
	code = -1
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			code = 128 + int(ws.Signal())
		}
	}
	return
}

func runShard(p *Prop, env *Env, shard, shards int) workerRun {
	var skip []string
	for try := 0; try < 4; try++ {
		r, code, stage, idx, stderr := runWorker(p, env, shard, shards, "", 1, skip)
		if code == 0 {
			return r
		}
		if code == exitBroken || stage < 0 {
			return workerRun{broken: fmt.Sprintf("worker exit %d: %s", code, clip(stderr, 2000))}
		}
		v := &Violation{Property: p.ID, Stage: p.Stages[stage].Name, Case: idx, Seed: env.Seed, Trace: strings.Split(clip(stderr, 6000), "\n")}
		switch {
		case code == exitRace || strings.Contains(stderr, "WARNING: DATA RACE"):
			v.Kind, v.Message = "race", "data race"
			return workerRun{viol: v}
		case strings.Contains(stderr, "fatal error: concurrent map"):
			v.Kind, v.Message = "race", "concurrent map access"
			return workerRun{viol: v}
		case strings.HasPrefix(stderr, "panic:") || strings.Contains(stderr, "\npanic:"):
			v.Kind, v.Message = "panic", "panic in a goroutine of the case"
			return workerRun{viol: v}
		}
		// Confirm that the case ends the process on its own, with twice the limits
		_, code2, _, _, stderr2 := runWorker(p, env, shard, 1, fmt.Sprintf("%d:%d", stage, idx), 2, nil)
		if code2 != 0 && code2 != exitBroken && code2 != 128+9 {
			switch code2 {
			case exitHang:
				v.Kind, v.Message = "hang", "does not terminate: CPU time limit of the case exceeded twice"
			case exitMemory:
				v.Kind, v.Message = "memory", "memory limit of the case exceeded twice"
			case exitDeadlock:
				v.Kind, v.Message = "deadlock", "all goroutines of the case are blocked"
			default:
				v.Kind, v.Message = "fatal", "the process was ended by: "+firstLine(stderr2)
			}
			v.Trace = strings.Split(clip(stderr2, 6000), "\n")
			return workerRun{viol: v}
		}
		fmt.Fprintf(os.Stderr, "%s: worker %d exit %d at case %d of stage %d not confirmed, skipped\n%s\n", p.ID, shard, code, idx, stage, clip(stderr, 1000))
		skip = append(skip, fmt.Sprintf("%d:%d", stage, idx))
	}
	return workerRun{broken: "too many unconfirmed failures"}
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "signal") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "")
	scratch := fs.String("scratch", os.TempDir(), "")
	shards := fs.Int("shards", runtime.NumCPU(), "")
	fs.Parse(args)
	p := registry[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *id)
		os.Exit(exitBroken)
	}
	env := &Env{Tier: os.Getenv("VERIF_TIER"), Scratch: *scratch, Seed: 1}
	if env.Tier != "thorough" {
		env.Tier = "quick"
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if _, err := fmt.Sscan(s, &env.Seed); err != nil {
			env.Seed = hashStr(s)
		}
	}
	env.Self, _ = os.Executable()
	start := time.Now()
	var early []Violation
	if p.Needs != nil {
		var err error
		if early, err = p.Needs(p, env); err != nil {
			fmt.Fprintln(os.Stderr, p.ID, err)
			os.Exit(exitBroken)
		}
	}
	n := *shards
	if n > 8 {
		n = 8
	}
	if p.Serial || n < 1 {
		n = 1
	}
	total := newResult()
	total.Violations = early
	var mu sync.Mutex
	var wg sync.WaitGroup
	var brokenMsg string
	// Workers are replaced after a share of the cases, as the types they make are never freed
	shares := n * p.shares(env.Tier)
	slots := make(chan bool, n)
	for i := 0; i < shares; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			mu.Lock()
			stop := len(total.Violations) > 0
			mu.Unlock()
			if stop {
				return
			}
			r := runShard(p, env, i, shares)
			mu.Lock()
			defer mu.Unlock()
			if r.broken != "" {
				brokenMsg = r.broken
			}
			if r.viol != nil {
				total.Violations = append(total.Violations, *r.viol)
			}
			if r.res != nil {
				total.merge(r.res)
			}
		}(i)
	}
	wg.Wait()
	wall := time.Since(start).Seconds()
	sort.Slice(total.Violations, func(i, j int) bool {
		a, b := &total.Violations[i], &total.Violations[j]
		return a.Stage < b.Stage || a.Stage == b.Stage && a.Case < b.Case
	})
	writeEvidence(p, env, total, wall)
	keys := []string{}
	for k := range total.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k, total.Known[k])
	}
	if len(total.Violations) > 0 {
		dir := filepath.Join(verifDir(), "out", "replay")
		os.MkdirAll(dir, 0755)
		for i := range total.Violations {
			v := &total.Violations[i]
			name := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, strings.ReplaceAll(v.Stage, " ", "-"), v.Case))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(name, b, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, name)
			fmt.Printf("  %s in stage %s case %d seed %d: %s\n", v.Kind, v.Stage, v.Case, v.Seed, clip(v.Message, 1500))
			if i == 2 {
				break
			}
		}
		os.Exit(exitViolation)
	}
	if brokenMsg != "" {
		fmt.Fprintf(os.Stderr, "%s: no answer: %s\n", p.ID, brokenMsg)
		os.Exit(exitBroken)
	}
	if total.Evals == 0 || len(total.Sigs) < p.MinSig {
		fmt.Fprintf(os.Stderr, "%s: no answer: only %d evaluations and %d distinct observations\n", p.ID, total.Evals, len(total.Sigs))
		os.Exit(exitBroken)
	}
	fmt.Printf("OK property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs\n", p.ID, env.Tier, env.Seed, total.Cases, total.Evals, len(total.Sigs), wall)
}

func (t *Result) merge(r *Result) {
	t.Evals += r.Evals
	t.Cases += r.Cases
	for k := range r.Sigs {
		if len(t.Sigs) < 10*maxSigs {
			t.Sigs[k] = true
		}
	}
	for k, v := range r.Counters {
		t.Counters[k] += v
	}
	for k, v := range r.Samples {
		if old, ok := t.Samples[k]; !ok || v < old {
			t.Samples[k] = v
		}
	}
	for k, v := range r.Known {
		t.Known[k] = v
	}
	t.Violations = append(t.Violations, r.Violations...)
}

func writeEvidence(p *Prop, env *Env, r *Result, wall float64) {
	names := []string{}
	for k := range r.Samples {
		names = append(names, k)
	}
	sort.Strings(names)
	samples := []interface{}{}
	for _, k := range names {
		samples = append(samples, map[string]string{"kind": k, "observed": r.Samples[k]})
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	distinct := int64(len(r.Sigs))
	if distinct > r.Evals {
		distinct = r.Evals
	}
	ev := map[string]interface{}{
		"property": p.ID,
		"tier":     env.Tier,
		"seed":     env.Seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         r.Evals,
			"distinct_nontrivial": distinct,
			"rule":                p.Rule,
			"samples":             samples,
			"cases":               r.Cases,
			"events":              r.Counters,
		},
		"wall_s":     wall,
		"violations": len(r.Violations),
		"assumptions": []string{
			"The Go toolchain, runtime, race detector, encoding/json and strconv are trusted as oracles.",
			"Only the executions listed here were observed: other inputs and interleavings are not covered.",
		},
	}
	if len(r.Known) > 0 {
		ev["known_findings"] = r.Known
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(exitBroken)
	}
}

func replay(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitBroken)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitBroken)
	}
	p := registry[v.Property]
	self, _ := os.Executable()
	env := &Env{Tier: "thorough", Seed: v.Seed, Scratch: os.Getenv("VMON_SCRATCH"), Self: self, Replay: true}
	if v.Tier != "" {
		env.Tier = v.Tier
	}
	if p.Needs != nil {
		early, err := p.Needs(p, env)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitBroken)
		}
		for _, e := range early {
			fmt.Printf("VIOLATION property=%s replay=%s\n%s: %s\n", p.ID, args[0], e.Kind, e.Message)
			for _, l := range e.Trace {
				fmt.Println(" |", l)
			}
		}
		if len(early) > 0 {
			os.Exit(exitViolation)
		}
		if env.Self != self {
			// The cases need the monitor that was built
			for i := range p.Stages {
				if p.Stages[i].Name == v.Stage {
					r, _, _, _, stderr := runWorker(p, env, 0, 1, fmt.Sprintf("%d:%d", i, v.Case), 1, nil)
					if r.res != nil && len(r.res.Violations) > 0 {
						got := r.res.Violations[0]
						fmt.Printf("VIOLATION property=%s replay=%s\n%s: %s\n", p.ID, args[0], got.Kind, got.Message)
						for _, l := range got.Trace {
							fmt.Println(" |", l)
						}
						os.Exit(exitViolation)
					} else if r.res == nil {
						fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", p.ID, args[0], stderr)
						os.Exit(exitViolation)
					}
				}
			}
			fmt.Println("not reproduced")
			return
		}
	}
	workerSetup()
	for i := range p.Stages {
		if p.Stages[i].Name == v.Stage {
			if got := runCase(p, &p.Stages[i], v.Case, env, newResult()); got != nil {
				fmt.Printf("VIOLATION property=%s replay=%s\n%s: %s\n", p.ID, args[0], got.Kind, got.Message)
				for _, l := range got.Trace {
					fmt.Println(" |", l)
				}
				os.Exit(exitViolation)
			}
		}
	}
	fmt.Println("not reproduced")
}
