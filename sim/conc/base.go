// Package conc holds the worlds whose tasks run real code on shared objects under the scheduler of simrt.
package conc

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif.local/sim/core"
	"verif.local/sim/simrt"
)

// Exec runs main as a simulation and turns data races, deadlocks, endless runs and panics of tasks into violations.
// Tasks' panics that are part of the result are recovered by the tasks themselves.
func Exec(c *core.Ctx, seed uint64, start int64, maxSteps int64, main func(s *simrt.Sim)) *simrt.Sim {
	before := raceLogSize()
	s := simrt.Run(simrt.Config{Seed: seed, Start: start, MaxSteps: maxSteps, Trace: c.Keep}, main)
	c.Steps += int(s.Steps)
	c.Add("switches", s.Switches)
	c.Faults["preemption"] += s.Switches
	if c.Keep {
		for _, l := range s.Trace() {
			c.Log = append(c.Log, l)
		}
	}
	c.Logf("schedule %016x steps %d", s.Hash, s.Steps)
	c.State("schedule", fmt.Sprint(s.Hash))
	if n := s.Races(); n > 0 {
		c.Fail("race", "data race: %s", raceText(before))
	}
	if p, st := s.MainPanic(); p != nil {
		switch d := p.(type) {
		case simrt.Deadlock:
			sort.Strings(d.Tasks)
			c.Fail("deadlock", "tasks are blocked for ever: %v", d.Tasks)
		case simrt.OutOfSteps:
			c.Fail("endless", "the tasks do not end within %d steps", maxSteps)
		case core.Stop:
			panic(d)
		default:
			panic(fmt.Sprintf("main task: %v\n%s", p, st))
		}
	}
	if ps := s.Panicked(); len(ps) > 0 {
		l := strings.Split(ps[0], "\n")
		c.Fail("panic", "%s", strings.Join(l[:min(len(l), 1)], " ")+" "+where(l))
	}
	return s
}

// where picks the innermost frame of the code under test from a stack.
func where(st []string) string {
	for _, l := range st {
		if strings.HasPrefix(l, "github.com/iotaledger/iota.go") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return "in " + l
		}
	}
	return ""
}

// The race detector writes its reports to a file.
func raceLog() string {
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(o, "log_path="); ok {
			return fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	return ""
}

func raceLogSize() int64 {
	st, err := os.Stat(filepath.Clean(raceLog()))
	if err != nil {
		return 0
	}
	return st.Size()
}

// raceText gives the accesses of the first report past an offset of the log.
func raceText(from int64) string {
	b, err := os.ReadFile(raceLog())
	if err != nil || int64(len(b)) < from {
		return "(no report)"
	}
	var r []string
	head := ""
	for _, l := range strings.Split(string(b[from:]), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Goroutine") || len(r) == 4 {
			break
		}
		if strings.Contains(t, "by goroutine") || strings.Contains(t, "by main goroutine") {
			head = strings.Fields(t)[0]
			if strings.HasPrefix(t, "Previous") {
				head = "previous " + strings.Fields(t)[1]
			}
			continue
		}
		if head != "" && strings.HasSuffix(t, "()") && !strings.HasPrefix(t, "runtime.") {
			r = append(r, head+" in "+t)
			head = ""
		}
	}
	return strings.Join(r, ", ")
}
