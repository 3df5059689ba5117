// check decides one property by seeded search over simulated runs.
package main

import (
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/core"
	"verif.local/sim/simrt"
)

func main() {
	prop := flag.String("property", "", "property to decide")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed of the search")
	runs := flag.Int("runs", 0, "number of runs instead of the tier's")
	workers := flag.Int("workers", 0, "parallel runs")
	dir := flag.String("dir", "/verif", "where evidence and replays go")
	replay := flag.String("replay", "", "replay a file")
	digest := flag.Bool("digest", false, "print the digest of all logs only")
	shard := flag.Int("shard", 0, "share of the runs")
	shards := flag.Int("shards", 0, "number of shares; the outcome goes to standard output")
	one := flag.Int("one", -1, "run a single index with its log")
	verbose := flag.Bool("v", false, "print statistics")
	flag.BoolVar(&core.Any, "any", false, "report divergences about other properties too")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	mprof := flag.String("memprofile", "", "write a profile of all allocations, with -one")
	flag.Parse()
	core.Mute()
	raceOptions(*dir)
	if *prof != "" {
		if f, err := os.Create(*prof); err == nil {
			_ = pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	if err := core.LoadKnown(filepath.Join(*dir, "known-findings.txt")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	core.OrderMaps = simrt.OrderMaps
	debug.SetMemoryLimit(2 << 30)

	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	s := specs()[*prop]
	if s == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	start := time.Now()
	opt := &core.Options{Seed: *seed, Tier: *tier, Workers: *workers, Dir: *dir, Runs: *runs, Shard: *shard, Shards: *shards}
	if *one >= 0 {
		p := core.MakePlan(s, opt, *one)
		c := core.Exec(core.WorldFor(s, p), p, true)
		for _, l := range c.Log {
			fmt.Fprintln(core.Out, l)
		}
		fmt.Fprintf(core.Out, "violation %v hash %016x\n", c.V, c.LogHash)
		if *mprof != "" {
			if f, err := os.Create(*mprof); err == nil {
				_ = pprof.Lookup("allocs").WriteTo(f, 0)
				_ = f.Close()
			}
		}
		return
	}
	o := core.Search(s, opt)
	if *shards > 0 {
		if err := gob.NewEncoder(core.Out).Encode(o); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		return
	}
	if *digest {
		fmt.Fprintf(core.Out, "%s %d %016x\n", s.Prop, o.Runs, o.AllHashes)
		if o.V != nil {
			fmt.Fprintln(core.Out, "violation", o.V.Prop, o.V.Class, oneLine(o.V.Msg))
		}
		return
	}
	if *verbose {
		for _, k := range core.SortedKeys(o.Stats) {
			fmt.Fprintf(core.Out, "  %-60s %d\n", k, o.Stats[k])
		}
		fmt.Fprintf(core.Out, "  faults %v\n  runs %d evals %d states %d wall %.1f workers %d\n", o.Faults, o.Runs, o.Evals, len(o.States), o.Wall, runtime.NumCPU())
	}
	for _, k := range core.SortedKeys(o.Known) {
		fmt.Fprintf(core.Out, "KNOWN-FINDING: property=%s %s: %s\n", s.Prop, k, oneLine(o.Known[k]))
	}
	code := 0
	if o.V != nil {
		code = report(s, opt, o)
	}
	if err := core.WriteEvidence(s, opt, o, filepath.Join(*dir, "evidence", s.Prop+".json"), time.Since(start).Seconds()); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if n := o.Stats["harness-panic"]; code == 0 && n > 3 && n > int64(o.Runs)/50 {
		fmt.Fprintf(os.Stderr, "%d of %d runs gave no verdict\n", n, o.Runs)
		os.Exit(2)
	}
	if code == 0 {
		fmt.Fprintf(core.Out, "ok property=%s runs=%d evaluations=%d states=%d wall=%.1fs\n", s.Prop, o.Runs, o.Evals, len(o.States), time.Since(start).Seconds())
	}
	os.Exit(code)
}

// raceOptions starts the program anew with the options that make the race detector report every race of every run, to a
// file.
func raceOptions(dir string) {
	if !simrt.RaceBuild || strings.Contains(os.Getenv("GORACE"), "suppress_equal_stacks=0") {
		return
	}
	exe, err := os.Executable()
	if err != nil {
		return
	}
	log := filepath.Join(filepath.Dir(exe), "race")
	env := append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3 log_path="+log)
	if err := syscall.Exec(exe, os.Args, env); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// report minimises and saves a violation, and replays it in a fresh process.
func report(s *core.Spec, opt *core.Options, o *core.Outcome) int {
	w := core.WorldFor(s, o.VPlan)
	orig := len(o.VPlan.Ops)
	p := core.Minimise(w, o.VPlan, o.V, 60*time.Second)
	f, r, err := core.WriteReplay(w, p, orig, filepath.Join(opt.Dir, "replays"), o.V.Class)
	if err != nil || r.Violation == nil {
		// keep the full plan
		p = o.VPlan
		f, r, err = core.WriteReplay(w, p, orig, filepath.Join(opt.Dir, "replays"), o.V.Class)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Fprintf(core.Out, "violation: %s: %s\n", o.V.Class, o.V.Msg)
	fmt.Fprintf(core.Out, "minimised from %d to %d steps, seed %d\n", orig, len(p.Ops), p.Seed)
	exe, err := os.Executable()
	if err == nil {
		out, err := exec.Command(exe, "-dir", opt.Dir, "-replay", f).CombinedOutput()
		ok := err != nil && strings.Contains(string(out), "REPRODUCED")
		fmt.Fprintf(core.Out, "replay in a fresh process reproduces it: %v\n", ok)
		if !ok {
			fmt.Fprintf(core.Out, "...%s\n", out[max(0, len(out)-2000):])
		}
	}
	fmt.Fprintf(core.Out, "VIOLATION property=%s replay=%s\n", s.Prop, f)
	return 1
}

// doReplay executes a replay file: exit 1 if the violation is reproduced exactly.
func doReplay(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r core.Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	s := specs()[r.Plan.Prop]
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Plan.Prop)
		return 2
	}
	if r.Violation != nil && r.Violation.Class == "hang" {
		time.AfterFunc(core.HangAfter, func() {
			fmt.Fprintln(core.Out, "REPRODUCED: hang: the run does not end")
			os.Exit(1)
		})
	}
	class := ""
	if r.Violation != nil {
		class = r.Violation.Class
	}
	c := core.ExecSure(core.WorldFor(s, r.Plan), r.Plan, true, class)
	for _, l := range c.Log {
		fmt.Fprintln(core.Out, l)
	}
	switch {
	case c.V == nil:
		fmt.Fprintln(core.Out, "no violation")
		return 0
	case r.Violation != nil && c.V.Class == r.Violation.Class && c.LogHash == r.LogHash:
		fmt.Fprintf(core.Out, "REPRODUCED exactly (log hash %016x): %s: %s\n", c.LogHash, c.V.Class, c.V.Msg)
	default:
		fmt.Fprintf(core.Out, "a violation, but not the same execution (log hash %016x, recorded %016x): %s: %s\n", c.LogHash, r.LogHash, c.V.Class, c.V.Msg)
	}
	return 1
}

func oneLine(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
