package core

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// World is a simulated system.
type World interface {
	// Plan makes the workload and fault sequence of a run.
	Plan(r *RNG, prop, tier string) []Op
	// Run executes a plan.
	Run(c *Ctx)
}

// Spec says how a property is decided.
type Spec struct {
	Prop     string
	World    string
	W        World
	Alt      []Alt // further worlds that take turns with W
	Quick    int   // runs
	Thorough int
	Rule     string
	Real     string // components that run real code
	Stub     string // components that run a stub
	// Extra runs once before the search (deterministic reproduction of known findings, self checks).
	Extra   func(c *Ctx)
	Serial  bool // runs may not run in parallel in one process (race detector bookkeeping)
	Assume  []string
	Measure string // what a distinct state is
}

// Alt is a further world that decides the same property: every so many runs are its.
type Alt struct {
	Name  string
	W     World
	Every int
}

type Options struct {
	Seed    uint64
	Tier    string
	Workers int
	Dir     string // /verif
	Runs    int    // override
	Shard   int    // this process does the runs with index = Shard modulo Shards
	Shards  int
}

var harnessPanics atomic.Int64

// Exec runs a plan in this process.
func Exec(w World, p *Plan, keep bool) (c *Ctx) {
	c = NewCtx(p, keep)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Stop); ok {
				return
			}
			// A panic that no node caught: the harness is broken, or real code panicked where nobody expected it.
			st := string(debug.Stack())
			if c.V == nil {
				if at, ok := panicInRepo(st); ok {
					c.V = &Violation{c.Prop, "panic", fmt.Sprintf("panic in %s: %v", at, r)}
					c.Logf("panic %s", at)
				} else {
					// The run ends without a verdict. Too many of these end the check without an answer.
					c.Count("harness-panic")
					if harnessPanics.Add(1) == 1 {
						fmt.Fprintf(os.Stderr, "harness panic (seed %d): %v\n%s\n", p.Seed, r, st)
					}
				}
			}
		}
	}()
	if OrderMaps != nil {
		OrderMaps(Mix(p.Seed, 99))
	}
	w.Run(c)
	return c
}

// OrderMaps seeds the order in which instrumented code iterates over maps; nil where runs share a process.
var OrderMaps func(seed uint64)

// panicInRepo tells whether the innermost frames of a panic are in the code under test.
func panicInRepo(st string) (string, bool) {
	lines := strings.Split(st, "\n")
	seen := false
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || i+1 >= len(lines) {
			continue
		}
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") {
			continue
		}
		if strings.HasPrefix(l, "verif.local/sim") {
			return "", false
		}
		if strings.HasPrefix(l, "github.com/iotaledger/iota.go") {
			f := l
			if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			return f, true
		}
	}
	return "", false
}

// PanicSite names the function of the code under test that panicked, from within a deferred recover.
func PanicSite() string {
	if s, ok := panicInRepo(string(debug.Stack())); ok {
		return s
	}
	return "?"
}

type result struct {
	i int
	c *Ctx
}

// Outcome of a search.
type Outcome struct {
	Runs      int
	Evals     int64
	Stats     map[string]int64
	Faults    map[string]int64
	States    map[uint64]struct{}
	Samples   []string
	SimNs     int64
	Steps     int64
	Nontriv   int64
	Known     map[string]string
	V         *Violation
	VPlan     *Plan
	VIndex    int
	Wall      float64
	AllHashes uint64
}

func merge(o *Outcome, c *Ctx) {
	o.Runs++
	o.Evals += c.Evals
	for k, v := range c.Stats {
		o.Stats[k] += v
	}
	for k, v := range c.Faults {
		o.Faults[k] += v
	}
	for k := range c.States {
		o.States[k] = struct{}{}
	}
	o.SimNs += c.SimNs
	o.Steps += int64(c.Steps)
	for k, v := range c.Known {
		if _, ok := o.Known[k]; ok {
			continue
		}
		o.Known[k] = v
	}
	if len(o.Samples) < 4 {
		o.Samples = append(o.Samples, c.Samples...)
	}
}

func MakePlan(s *Spec, opt *Options, i int) *Plan {
	seed := Mix(opt.Seed, HashStr(s.Prop), uint64(i))
	name, w := s.World, s.W
	for _, a := range s.Alt {
		if i%a.Every == a.Every-1 {
			name, w = a.Name, a.W
		}
	}
	return &Plan{Prop: s.Prop, World: name, Seed: seed, Ops: w.Plan(NewRNG(Mix(seed, 2)), s.Prop, opt.Tier)}
}

// Search executes runs until one violates the property.
func Search(s *Spec, opt *Options) *Outcome {
	o := &Outcome{Stats: map[string]int64{}, Faults: map[string]int64{}, States: map[uint64]struct{}{}, Known: map[string]string{}}
	start := time.Now()
	n := s.Quick
	capS := 420.0
	if opt.Tier == "thorough" {
		n = s.Thorough
		capS = 780
	}
	if opt.Runs > 0 {
		n = opt.Runs
	}
	if s.Serial && opt.Shards == 0 && n > 8 {
		return fork(s, opt, n)
	}
	shards := max(opt.Shards, 1)
	if s.Extra != nil && opt.Shard == 0 {
		p := &Plan{Prop: s.Prop, World: s.World, Seed: Mix(opt.Seed, HashStr(s.Prop), 1<<40), Ops: []Op{{K: "extra"}}}
		c := Exec(extraWorld{s}, p, false)
		merge(o, c)
		if c.V != nil {
			o.V, o.VPlan = c.V, p
			o.Wall = time.Since(start).Seconds()
			return o
		}
	}
	workers := opt.Workers
	if workers <= 0 {
		workers = runtime.NumCPU()
	}
	if s.Serial {
		workers = 1
	}
	var next, best atomic.Int64
	best.Store(int64(n))
	results := make([]*Ctx, n)
	hashes := make([]uint64, n)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := next.Add(1) - 1
				i = i*int64(shards) + int64(opt.Shard)
				if i >= best.Load() || time.Since(start).Seconds() > capS {
					return
				}
				p := MakePlan(s, opt, int(i))
				done := make(chan struct{})
				go watchdog(done, opt, p)
				c := Exec(WorldFor(s, p), p, false)
				close(done)
				c.q, c.Rng = nil, nil
				results[i] = c
				hashes[i] = c.LogHash
				if c.V != nil {
					for b := best.Load(); i < b && !best.CompareAndSwap(b, i); b = best.Load() {
					}
				}
			}
		}()
	}
	wg.Wait()
	for i := 0; i < n; i++ {
		c := results[i]
		if c == nil {
			continue
		}
		merge(o, c)
		o.AllHashes += Mix(uint64(i), hashes[i])
		if c.V != nil {
			o.V, o.VPlan, o.VIndex = c.V, c.Plan, i
			break
		}
	}
	if o.V == nil {
		// one seed is one execution: some are repeated
		again := 8
		if opt.Shards > 0 {
			again = 2
		}
		for k := 0; k < again; k++ {
			i := (k*n/again)/shards*shards + opt.Shard
			if i >= n || results[i] == nil || time.Since(start).Seconds() > capS {
				continue
			}
			o.Stats["reexecuted"]++
			if c := Exec(WorldFor(s, results[i].Plan), MakePlan(s, opt, i), false); c.LogHash != hashes[i] {
				o.Stats["reexecuted-differently"]++
				fmt.Fprintf(os.Stderr, "run %d is not the same when it is repeated\n", i)
			}
		}
	}
	o.Wall = time.Since(start).Seconds()
	return o
}

// fork lets child processes share the runs: worlds that may not run in parallel in one process.
func fork(s *Spec, opt *Options, n int) *Outcome {
	o := &Outcome{Stats: map[string]int64{}, Faults: map[string]int64{}, States: map[uint64]struct{}{}, Known: map[string]string{}, VIndex: 1 << 60}
	start := time.Now()
	shards := opt.Workers
	if shards <= 0 {
		shards = runtime.NumCPU()
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	outs := make([]*Outcome, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(exe, "-property", s.Prop, "-tier", opt.Tier, "-seed", fmt.Sprint(opt.Seed), "-runs", fmt.Sprint(n), "-dir", opt.Dir, "-any="+fmt.Sprint(Any), "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(shards))
			cmd.Stderr = os.Stderr
			out, err := cmd.Output()
			if f, ok := strings.CutPrefix(string(out), "HANG "); ok {
				hung(s.Prop, strings.TrimSpace(f))
			}
			c := new(Outcome)
			if derr := gob.NewDecoder(bytes.NewReader(out)).Decode(c); derr != nil {
				fmt.Fprintf(os.Stderr, "shard %d: %v %v\n%.2000s\n", i, err, derr, out)
				os.Exit(3)
			}
			outs[i] = c
		}()
	}
	wg.Wait()
	for _, c := range outs {
		o.Runs += c.Runs
		o.Evals += c.Evals
		o.SimNs += c.SimNs
		o.Steps += c.Steps
		o.AllHashes += c.AllHashes
		for k, v := range c.Stats {
			o.Stats[k] += v
		}
		for k, v := range c.Faults {
			o.Faults[k] += v
		}
		for k := range c.States {
			o.States[k] = struct{}{}
		}
		for k, v := range c.Known {
			o.Known[k] = v
		}
		if len(o.Samples) < 4 {
			o.Samples = append(o.Samples, c.Samples...)
		}
		if c.V != nil && (o.V == nil || c.VIndex < o.VIndex) {
			o.V, o.VPlan, o.VIndex = c.V, c.VPlan, c.VIndex
		}
	}
	o.Wall = time.Since(start).Seconds()
	return o
}

type extraWorld struct{ s *Spec }

func (e extraWorld) Plan(*RNG, string, string) []Op { return nil }
func (e extraWorld) Run(c *Ctx)                     { e.s.Extra(c) }

// WorldFor gives what executes a plan of a spec.
func WorldFor(s *Spec, p *Plan) World {
	if len(p.Ops) == 1 && p.Ops[0].K == "extra" {
		return extraWorld{s}
	}
	for _, a := range s.Alt {
		if a.Name == p.World {
			return a.W
		}
	}
	return s.W
}

// HangAfter is the time after which a run that has not ended is taken for endless; runs take milliseconds.
const HangAfter = 150 * time.Second

// watchdog reports a run that does not end as a violation.
func watchdog(done chan struct{}, opt *Options, p *Plan) {
	t := time.NewTimer(HangAfter)
	defer t.Stop()
	select {
	case <-done:
		return
	case <-t.C:
	}
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	r := &Replay{Plan: p, Violation: &Violation{Class: "hang", Msg: "the run does not end"}, Original: len(p.Ops), Trace: strings.Split(string(buf), "\n")}
	f := filepath.Join(opt.Dir, "replays", fmt.Sprintf("%s-%016x.json", p.Prop, p.Seed))
	_ = os.MkdirAll(filepath.Dir(f), 0o755)
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(f, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if opt.Shards > 0 {
		fmt.Fprintf(Out, "HANG %s\n", f)
		os.Exit(7)
	}
	hung(p.Prop, f)
}

// Out is where reports go. What the code under test prints on the standard output goes nowhere.
var Out = os.Stdout

// Mute takes the standard output from the code under test.
func Mute() {
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
}

func hung(prop, f string) {
	fmt.Fprintf(Out, "violation: hang: a run does not end within %v\nVIOLATION property=%s replay=%s\n", HangAfter, prop, f)
	os.Exit(1)
}

// Minimise shrinks a failing plan while it fails in the same way.
func Minimise(w World, p *Plan, v *Violation, budget time.Duration) *Plan {
	start := time.Now()
	cur := p
	if _, ok := w.(extraWorld); ok {
		return p
	}
	fails := func(q *Plan) bool {
		c := ExecSure(w, q, false, v.Class)
		return c.V != nil && c.V.Class == v.Class
	}
	with := func(ops []Op) *Plan {
		q := *cur
		q.Ops = ops
		return &q
	}
	for size := (len(cur.Ops) + 1) / 2; size >= 1; {
		removed := false
		for i := 0; i < len(cur.Ops) && time.Since(start) < budget; {
			end := min(i+size, len(cur.Ops))
			ops := append(append([]Op(nil), cur.Ops[:i]...), cur.Ops[end:]...)
			if q := with(ops); fails(q) {
				cur, removed = q, true
			} else {
				i = end
			}
		}
		if time.Since(start) >= budget {
			break
		}
		if !removed || size > 1 {
			if size == 1 {
				break
			}
			size = (size + 1) / 2
			if size < 1 {
				break
			}
		}
	}
	c := Exec(w, cur, false)
	for _, k := range SortedKeys(c.Faults) {
		if time.Since(start) >= budget {
			break
		}
		q := *cur
		q.Off = map[string]bool{k: true}
		for x := range cur.Off {
			q.Off[x] = true
		}
		if fails(&q) {
			cur = &q
		}
	}
	return cur
}

// Replay is the content of a replay file.
type Replay struct {
	Plan      *Plan      `json:"plan"`
	Violation *Violation `json:"violation"`
	LogHash   uint64     `json:"log_hash"`
	Original  int        `json:"original_ops"`
	Trace     []string   `json:"trace"`
}

// ExecSure executes a plan that may have a data race. The race detector remembers a random selection of earlier
// accesses, so it can miss a race of the same execution.
func ExecSure(w World, p *Plan, keep bool, class string) *Ctx {
	c := Exec(w, p, keep)
	for i := 0; i < 8 && class == "race" && c.V == nil; i++ {
		c = Exec(w, p, keep)
	}
	return c
}

// WriteReplay executes a plan once more with its log kept and saves it.
func WriteReplay(w World, p *Plan, orig int, dir, class string) (string, *Replay, error) {
	c := ExecSure(w, p, true, class)
	r := &Replay{Plan: p, Violation: c.V, LogHash: c.LogHash, Original: orig, Trace: c.Log}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", nil, err
	}
	f := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", p.Prop, p.Seed))
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return "", nil, err
	}
	return f, r, os.WriteFile(f, b, 0o644)
}

// WriteEvidence writes the evidence file.
func WriteEvidence(s *Spec, opt *Options, o *Outcome, file string, wall float64) error {
	viol := 0
	if o.V != nil {
		viol = 1
	}
	zero := []string{}
	for k, v := range o.Stats {
		if strings.HasPrefix(k, "probe.") && v == 0 {
			zero = append(zero, k)
		}
	}
	samples := []any{}
	for _, x := range o.Samples {
		samples = append(samples, x)
	}
	if len(samples) == 0 {
		samples = append(samples, "no sample recorded")
	}
	if len(samples) > 5 {
		samples = samples[:5]
	}
	hours := o.Wall / 3600
	if hours == 0 {
		hours = 1e-9
	}
	ev := map[string]any{
		"property": s.Prop, "tier": opt.Tier, "seed": opt.Seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":          o.Evals,
			"distinct_nontrivial":  len(o.States),
			"rule":                 s.Rule,
			"samples":              samples,
			"simulated_runs":       o.Runs,
			"runs_per_hour":        int64(float64(o.Runs) / hours),
			"seeds_per_hour":       int64(float64(o.Runs) / hours),
			"simulated_seconds":    float64(o.SimNs) / 1e9,
			"simulator_steps":      o.Steps,
			"faults_injected":      o.Faults,
			"statistics":           o.Stats,
			"distinct_measure":     s.Measure,
			"log_digest":           fmt.Sprintf("%016x", o.AllHashes),
			"real_components":      s.Real,
			"stubbed_components":   s.Stub,
			"known_findings_seen":  o.Known,
			"probes_never_reached": zero,
		},
		"assumptions": s.Assume,
		"wall_s":      wall,
		"violations":  viol,
	}
	if s.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(file), 0o755); err != nil {
		return err
	}
	return os.WriteFile(file, append(b, '\n'), 0o644)
}
