package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

// Rng is a splitmix64 generator: a case's whole input is a function of (seed, property, stage, index).
type Rng struct {
	s       uint64
	bulk    int // large dimensions left to use
	bulkMax int // bound of a large dimension
}

var bulkSizes = []int{65, 66, 100, 101, 128, 129, 200, 255, 256, 257, 258, 300, 400, 500, 512, 513, 1000, 1001, 1024, 1025, 2000, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 8193, 10000, 10001,
	16384, 16385, 20001, 32767, 32768, 32769, 50001, 65534, 65535, 65536, 65537, 66000, 100001, 131072, 131073, 262145, 524289, 1000001, 1<<20 + 1}

// bulkN returns a large size, or 0 when no large dimension is left. A large size is used once in d times.
func (r *Rng) bulkN(d, max int) int {
	if r.bulk <= 0 || !r.P(1, d) {
		return 0
	}
	return r.bulkSize(max)
}

func (r *Rng) bulkSize(max int) int {
	if r.bulk <= 0 {
		return 0
	}
	r.bulk--
	if r.bulkMax < max {
		max = r.bulkMax
	}
	if max < 65 {
		return max
	}
	k := len(bulkSizes)
	for k > 1 && bulkSizes[k-1] > max {
		k--
	}
	if r.P(1, 3) {
		return r.Range(64, bulkSizes[r.N(k)])
	}
	return bulkSizes[r.N(k)]
}

// bulk runs a case with some of the dimensions of its inputs large.
func bulk(fn func(c *Case), dims, max int) func(c *Case) {
	return func(c *Case) {
		c.R.bulk, c.R.bulkMax = 1+c.R.N(dims), max
		if c.R.P(1, 2) {
			c.R.bulkMax = minInt(max, 1200)
		}
		had := c.R.bulk
		fn(c)
		c.Count("large dimensions", had-c.R.bulk)
	}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0, n)
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a, b]
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability n/d
func (r *Rng) P(n, d int) bool { return r.N(d) < n }

func (r *Rng) Pick(s ...string) string { return s[r.N(len(s))] }

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func mix(h uint64, vs ...uint64) uint64 {
	for _, v := range vs {
		h ^= v + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)
		h *= 0xFF51AFD7ED558CCD
		h ^= h >> 32
	}
	return h
}

// Prop is a property and the stages of cases that decide it.
type Prop struct {
	ID     string
	Race   bool   // run with the race detector
	Rule   string // what counts as a distinct non trivial observation
	Stages []Stage
	Serial bool // one worker process only
	MinSig int  // fewer distinct observations than this is no answer
	Needs  func(p *Prop, env *Env) ([]Violation, error)
}

func (p *Prop) cases(st *Stage, tier string) int {
	if only := os.Getenv("VMON_STAGE"); only != "" && !strings.Contains(st.Name, only) {
		return 0 // for development: the run is of these stages alone
	}
	if tier == "thorough" {
		return st.Thorough
	}
	return st.Quick
}

// shares is the number of processes a worker's cases are split over.
func (p *Prop) shares(tier string) int {
	if p.Serial {
		return 1
	}
	max := 0
	for i := range p.Stages {
		if n := p.cases(&p.Stages[i], tier); n > max {
			max = n
		}
	}
	if n := max / 200000; n > 1 {
		return n
	}
	return 1
}

// Stage is a list of cases. Case i is the same on every run with the same seed.
type Stage struct {
	Name     string
	Quick    int
	Thorough int
	Fn       func(c *Case)
	CPULimit int // seconds of CPU time before a case counts as hanging (default 30)
}

// Env is the environment of a run.
type Env struct {
	Tier, Scratch, Self string
	Seed                uint64
	Replay              bool
}

// Violation is a broken property with what is needed to reproduce it.
type Violation struct {
	Property string   `json:"property"`
	Stage    string   `json:"stage"`
	Case     int      `json:"case"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier,omitempty"`
	Kind     string   `json:"kind"` // oracle, panic, race, fatal, hang
	Key      string   `json:"key,omitempty"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
}

// Result is what a worker observed.
type Result struct {
	Evals      int64             `json:"evals"`
	Cases      int64             `json:"cases"`
	Sigs       map[uint64]bool   `json:"sigs"`
	Counters   map[string]int64  `json:"counters"`
	Samples    map[string]string `json:"samples"`
	Violations []Violation       `json:"violations"`
	Known      map[string]string `json:"known"`
}

func newResult() *Result {
	return &Result{Sigs: map[uint64]bool{}, Counters: map[string]int64{}, Samples: map[string]string{}, Known: map[string]string{}}
}

const maxSigs = 400000

// Case is one generated input/history and the monitors that watch it.
type Case struct {
	R     *Rng
	Idx   int
	Stage string
	Env   *Env
	res   *Result
	prop  *Prop
	trace []string
	known map[string]string
}

type failure struct {
	msg, key, kind string
}

// Failf reports a violation and stops the case.
func (c *Case) Failf(format string, args ...interface{}) {
	panic(failure{clip(fmt.Sprintf(format, args...), 8000), "", "oracle"})
}

// Fail reports a violation with a key a known finding may be listed under.
func (c *Case) FailKey(key, format string, args ...interface{}) {
	panic(failure{clip(fmt.Sprintf(format, args...), 8000), key, "oracle"})
}

// Eval counts oracle evaluations.
func (c *Case) Eval(n int) { c.res.Evals += int64(n) }

// Count counts observed events by name.
func (c *Case) Count(name string, n int) { c.res.Counters[name] += int64(n) }

// Sig records a distinct non trivial observation.
func (c *Case) Sig(name string, vs ...uint64) {
	if len(c.res.Sigs) < maxSigs {
		c.res.Sigs[mix(hashStr(name), vs...)] = true
	}
}

// Sample keeps one example per name.
func (c *Case) Sample(name, format string, args ...interface{}) {
	if _, ok := c.res.Samples[name]; !ok && len(c.res.Samples) < 24 {
		c.res.Samples[name] = clip(fmt.Sprintf(format, args...), 300)
	}
}

// Logf adds a line to the trace of the case, kept if it fails.
func (c *Case) Logf(format string, args ...interface{}) {
	if len(c.trace) >= 400 {
		c.trace = append(c.trace[:200:200], c.trace[201:]...)
	}
	c.trace = append(c.trace, clip(fmt.Sprintf(format, args...), 600))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n*2/3] + fmt.Sprintf("...[%d bytes]...", len(s)-n) + s[len(s)-n/3:]
	}
	return s
}

func caseSeed(seed uint64, prop, stage string, idx int) uint64 {
	return mix(seed*0x2545F4914F6CDD1D+1, hashStr(prop), hashStr(stage), uint64(idx))
}

func runCase(p *Prop, st *Stage, idx int, env *Env, res *Result) (v *Violation) {
	c := &Case{R: &Rng{s: caseSeed(env.Seed, p.ID, st.Name, idx)}, Idx: idx, Stage: st.Name, Env: env, res: res, prop: p}
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		v = &Violation{Property: p.ID, Stage: st.Name, Case: idx, Seed: env.Seed, Tier: env.Tier, Trace: c.trace}
		if f, ok := x.(failure); ok {
			v.Kind, v.Message, v.Key = f.kind, f.msg, f.key
		} else if b, ok := x.(broken); ok {
			fmt.Fprintf(os.Stderr, "harness: %s\n", string(b))
			os.Exit(3)
		} else {
			v.Kind, v.Message = "panic", fmt.Sprintf("panic: %v", x)
			v.Trace = append(v.Trace, strings.Split(clip(string(debug.Stack()), 4000), "\n")...)
		}
	}()
	if slowCases != "" {
		start := cpuTime()
		defer func() {
			if d := cpuTime() - start; d > 3*time.Second {
				if f, err := os.OpenFile(slowCases, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644); err == nil {
					fmt.Fprintf(f, "%s stage %s case %d seed %d: %v\n", p.ID, st.Name, idx, env.Seed, d)
					f.Close()
				}
			}
		}()
	}
	st.Fn(c)
	res.Cases++
	return nil
}

// slowCases names a file cases that take long are listed in, for the development of stages.
var slowCases = os.Getenv("VMON_SLOW")

// broken is a failure of the harness itself: no answer.
type broken string

// Broken stops the run without an answer.
func (c *Case) Broken(format string, args ...interface{}) {
	panic(broken(fmt.Sprintf(format, args...)))
}

var registry = map[string]*Prop{}

func register(p *Prop) { registry[p.ID] = p }
