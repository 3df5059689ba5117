package core

import (
	"container/heap"
	"fmt"
	"os"
	"sort"
	"strings"
)

// Op is one step of a plan. All choices made while executing it come from its own seed, so that steps can be removed
// from a plan without changing the meaning of the others.
type Op struct {
	K string `json:"k"`
	S uint64 `json:"s"`
}

// Plan is a complete description of a run.
type Plan struct {
	Prop  string          `json:"property"`
	World string          `json:"world"`
	Seed  uint64          `json:"seed"`
	Ops   []Op            `json:"ops"`
	Off   map[string]bool `json:"faults_off,omitempty"`
}

// Violation of a property.
type Violation struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// Stop ends a run.
type Stop struct{}

// Any makes every divergence count, whatever property it is about (for developing the checks).
var Any bool

// Ctx is the environment of one run.
type Ctx struct {
	Plan    *Plan
	Prop    string
	Rng     *RNG // configuration choices
	Keep    bool
	Log     []string
	LogHash uint64
	Lines   int

	V *Violation
	// Known findings seen, by id.
	Known map[string]string

	Stats   map[string]int64
	Faults  map[string]int64
	States  map[uint64]struct{}
	Evals   int64
	SimNs   int64
	Samples []string
	Steps   int

	now int64
	seq uint64
	q   eventHeap
}

func NewCtx(p *Plan, keep bool) *Ctx {
	return &Ctx{Plan: p, Prop: p.Prop, Rng: NewRNG(Mix(p.Seed, 1)), Keep: keep, LogHash: 14695981039346656037,
		Stats: map[string]int64{}, Faults: map[string]int64{}, States: map[uint64]struct{}{}, Known: map[string]string{}}
}

// Logf records an event of the run. It never draws randomness.
func (c *Ctx) Logf(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	c.Lines++
	h := c.LogHash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	c.LogHash = (h ^ 10) * 1099511628211
	if c.Keep {
		c.Log = append(c.Log, fmt.Sprintf("[%d] %s", c.now, s))
	}
}

// Count a statistic.
func (c *Ctx) Count(k string)        { c.Stats[k]++ }
func (c *Ctx) Add(k string, n int64) { c.Stats[k] += n }

// Fault counts an injected fault and tells whether this kind is enabled in the plan.
func (c *Ctx) On(kind string) bool { return !c.Plan.Off[kind] }
func (c *Ctx) Fault(kind string)   { c.Faults[kind]++ }

// State records that a distinct state or shape was reached.
func (c *Ctx) State(parts ...string) {
	if len(c.States) < 4096 {
		c.States[HashStr(strings.Join(parts, "|"))] = struct{}{}
	}
}

func (c *Ctx) Sample(s string) {
	if len(c.Samples) < 3 {
		if len(s) > 600 {
			s = s[:600]
		}
		c.Samples = append(c.Samples, s)
	}
}

// Fail reports a violation of the checked property and ends the run.
func (c *Ctx) Fail(class, format string, a ...any) {
	if c.V == nil {
		c.V = &Violation{c.Prop, class, fmt.Sprintf(format, a...)}
		if class == "race" {
			// which of several earlier accesses the race detector names is not determined by the execution
			c.Logf("VIOLATION race")
		} else {
			c.Logf("VIOLATION %s: %s", class, c.V.Msg)
		}
	}
	panic(Stop{})
}

// FailFor reports a violation if the checked property is among the given ones, and ends the run in any case: past a
// divergence that is not about this property there is nothing left to check.
func (c *Ctx) FailFor(props []string, class, format string, a ...any) {
	for _, p := range props {
		if p == c.Prop {
			c.Fail(class, format, a...)
		}
	}
	if Any {
		c.Fail(class, format, a...)
	}
	c.Count("ended-on-other-property")
	c.Count("other." + class)
	c.Logf("end: %s", class)
	panic(Stop{})
}

// KnownIDs are the findings that the known-findings file lists, "property id".
var KnownIDs = map[string]bool{}

// LoadKnown reads the known-findings file.
func LoadKnown(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 3 && f[0] == "known:" {
			KnownIDs[strings.TrimPrefix(f[1], "property=")+" "+strings.TrimPrefix(f[2], "id=")] = true
		}
	}
	return nil
}

// Finding reports a violation of the checked property that has an identity: it is only noted if it is a known one.
func (c *Ctx) Finding(id, class, format string, a ...any) {
	if KnownIDs[c.Prop+" "+id] {
		c.Known[id] = fmt.Sprintf(format, a...)
		c.Logf("known finding %s", id)
		return
	}
	c.Fail(class, format, a...)
}

// Check is Fail unless ok.
func (c *Ctx) Check(ok bool, class, format string, a ...any) {
	if !ok {
		c.Fail(class, format, a...)
	}
}

// event queue

type event struct {
	at  int64
	seq uint64
	fn  func()
}
type eventHeap []event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *eventHeap) Pop() any {
	o := *h
	n := len(o)
	x := o[n-1]
	*h = o[:n-1]
	return x
}

func (c *Ctx) Now() int64 { return c.now }

// At schedules fn at a simulated time (ns); never in the past.
func (c *Ctx) At(t int64, fn func()) {
	if t < c.now {
		t = c.now
	}
	c.seq++
	heap.Push(&c.q, event{t, c.seq, fn})
}
func (c *Ctx) After(d int64, fn func()) { c.At(c.now+d, fn) }

// RunUntil executes all events up to and including time t and sets the clock to t.
func (c *Ctx) RunUntil(t int64) {
	for len(c.q) > 0 && c.q[0].at <= t {
		e := heap.Pop(&c.q).(event)
		c.SimNs += e.at - c.now
		c.now = e.at
		c.Steps++
		e.fn()
	}
	if t > c.now {
		c.SimNs += t - c.now
		c.now = t
	}
}

// Drain executes all pending events (bounded).
func (c *Ctx) Drain(maxSteps int) bool {
	for n := 0; len(c.q) > 0; n++ {
		if n >= maxSteps {
			return false
		}
		e := heap.Pop(&c.q).(event)
		c.SimNs += e.at - c.now
		c.now = e.at
		c.Steps++
		e.fn()
	}
	return true
}

// SetNow sets the clock without running anything (start of a run).
func (c *Ctx) SetNow(t int64) { c.now = t }

// SortedKeys of a map with string keys.
func SortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
