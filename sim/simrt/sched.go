// Package simrt is the runtime of the concurrency simulations: a scheduler that runs exactly one task at a time and
// decides every switch from a seed, and stand-ins for the synchronisation primitives that instrumented copies of the
// repository's sources use in place of the real ones. Without a running simulation the stand-ins behave like the real
// primitives.
//
// Switches between tasks are hidden from the race detector, and the stand-ins tell it about exactly the ordering that the
// real primitives guarantee: a run under the detector finds unsynchronised accesses although the tasks never overlap.
// For the same reason the functions here are not instrumented themselves, and use no maps.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"time"
	"unsafe"
)

const (
	stRunnable = iota
	stBlocked
	stDone
)

type task struct {
	id      int
	name    string
	wake    chan struct{}
	state   int
	polled  int64 // progress count at the last unsuccessful poll
	quiesce bool  // waits until nobody else can do anything
	sleepTo int64 // -1: not sleeping
	site    string
	steps   int64
	prio    int
	started bool

	// pending channel operations
	cases   []Case
	matched int
	ok      bool

	pan   any
	stack string
	killd bool
	sync  byte
	end   byte
}

// Sim is one simulated execution.
type Sim struct {
	tasks    []*task
	cur      *task
	rng      uint64
	progress int64
	budget   int
	mean     int
	Steps    int64
	MaxSteps int64
	Switches int64
	Hash     uint64
	now      int64
	killing  bool
	over     bool
	Exceeded bool // ran out of steps
	pct      bool
	abort    any // what the main task is to panic with
	trace    bool
	log      []entry
	races0   int
	main     chan struct{}
}

type entry struct {
	step int64
	task *task
	site string
}

// Trace tells which task went on where at every switch.
func (s *Sim) Trace() (r []string) {
	for _, e := range s.log {
		r = append(r, fmt.Sprintf("step %d: task %d (%s) goes on at %s", e.step, e.task.id, e.task.name, e.site))
	}
	return r
}

var active *Sim

// fairAfter is the number of steps after which no schedule starves a task any longer.
const fairAfter = 60000

// Config of a simulation.
type Config struct {
	Seed     uint64
	MaxSteps int64
	Start    int64 // simulated time, ns since 1970
	Trace    bool
}

//go:norace
func (s *Sim) rand() uint64 {
	s.rng += 0x9E3779B97F4A7C15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func (s *Sim) intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.rand() % uint64(n))
}

// Run executes main as the first task of a simulation and returns when it has returned; tasks that are still alive then
// are ended.
//
//go:norace
func Run(cfg Config, main func(s *Sim)) *Sim {
	if active != nil {
		panic("simrt: simulations do not nest")
	}
	s := &Sim{rng: cfg.Seed, MaxSteps: cfg.MaxSteps, now: cfg.Start, Hash: 14695981039346656037, trace: cfg.Trace, main: make(chan struct{})}
	if s.MaxSteps == 0 {
		s.MaxSteps = 400000
	}
	s.mean = []int{1, 2, 4, 10, 30, 100, 400}[s.intn(7)]
	s.pct = s.intn(4) == 0
	s.races0 = raceErrors()
	s.nextBudget()
	t := s.newTask("main")
	s.cur = t
	t.started = true
	active = s
	go s.body(t, func() { main(s) })
	<-s.main
	active = nil
	return s
}

// Races is the number of data races the detector reported in this simulation.
func (s *Sim) Races() int { return raceErrors() - s.races0 }

//go:norace
func (s *Sim) newTask(name string) *task {
	t := &task{id: len(s.tasks), name: name, wake: make(chan struct{}, 1), sleepTo: -1, polled: -1, matched: -1}
	t.prio = int(s.rand() >> 40)
	s.tasks = append(s.tasks, t)
	return t
}

//go:norace
func (s *Sim) body(t *task, f func()) {
	defer s.finish(t)
	f()
}

//go:norace
func (s *Sim) finish(t *task) {
	if !t.killd {
		if r := recover(); r != nil {
			t.pan, t.stack = r, string(debug.Stack())
		}
	}
	release(unsafe.Pointer(&t.end))
	t.state = stDone
	s.progress++
	if t.id == 0 && !s.killing {
		s.killing = true
	}
	if s.killing {
		// end the tasks that are left, one after the other
		for _, o := range s.tasks {
			if o.state != stDone && !o.killd {
				o.killd = true
				s.cur = o
				if !o.started {
					o.state = stDone
					continue
				}
				raceOff()
				o.wake <- struct{}{}
				raceOn()
				return
			}
		}
		for _, o := range s.tasks {
			if o.state != stDone {
				return // it is being ended and goes on here
			}
		}
		s.over = true
		close(s.main)
		return
	}
	n := s.pick(nil)
	if n == nil {
		s.abort = Deadlock{s.Blocked()}
		n = s.tasks[0]
	}
	s.resume(n)
}

// resume hands the token to a task (the caller does not wait).
//
//go:norace
func (s *Sim) resume(n *task) {
	s.cur = n
	s.Switches++
	s.note(n)
	raceOff()
	n.wake <- struct{}{}
	raceOn()
}

//go:norace
func (s *Sim) note(n *task) {
	h := s.Hash
	h = (h ^ uint64(n.id)) * 1099511628211
	for i := 0; i < len(n.site); i++ {
		h = (h ^ uint64(n.site[i])) * 1099511628211
	}
	s.Hash = (h ^ uint64(n.state)) * 1099511628211
	if s.trace && len(s.log) < 5000 {
		s.log = append(s.log, entry{s.Steps, n, n.site})
	}
}

// switchTo hands the token to a task and waits for its return.
//
//go:norace
func (s *Sim) switchTo(n *task) {
	me := s.cur
	if n == me {
		return
	}
	s.cur = n
	s.Switches++
	s.note(n)
	raceOff()
	n.wake <- struct{}{}
	<-me.wake
	raceOn()
	if me.killd {
		runtime.Goexit()
	}
	if me.id == 0 && s.abort != nil {
		panic(s.abort)
	}
}

// candidate tells whether a task may be able to go on.
//
//go:norace
func (s *Sim) candidate(t *task) bool {
	switch t.state {
	case stRunnable:
		return true
	case stBlocked:
		if t.quiesce {
			return false
		}
		if t.sleepTo >= 0 {
			return t.sleepTo <= s.now
		}
		return t.matched >= 0 || t.polled < s.progress
	}
	return false
}

// pick chooses the next task; nil if nobody but sleepers and those who wait for quiescence is left.
//
//go:norace
func (s *Sim) pick(not *task) *task {
	n := 0
	var best *task
	for _, t := range s.tasks {
		if t == not || !s.candidate(t) {
			continue
		}
		n++
		if best == nil || t.prio > best.prio {
			best = t
		}
	}
	if n == 0 {
		// those who wait until nothing happens come first
		for _, t := range s.tasks {
			if t.state == stBlocked && t.quiesce {
				return t
			}
		}
		// the clock advances
		for _, t := range s.tasks {
			if t.state == stBlocked && t.sleepTo >= 0 && (best == nil || t.sleepTo < best.sleepTo) {
				best = t
			}
		}
		if best != nil && best.sleepTo > s.now {
			s.now = best.sleepTo
		}
		return best
	}
	if s.pct {
		if s.intn(50) == 0 {
			best.prio = int(s.rand() >> 40)
		}
		return best
	}
	k := s.intn(n)
	for _, t := range s.tasks {
		if t == not || !s.candidate(t) {
			continue
		}
		if k == 0 {
			return t
		}
		k--
	}
	return nil
}

//go:norace
func (s *Sim) nextBudget() {
	s.budget = 1 + s.intn(2*s.mean-1)
}

// Y is a point at which another task may go on.
//
//go:norace
func Y(site string) {
	s := active
	if s == nil || s.over {
		return
	}
	t := s.cur
	if s.killing {
		return
	}
	t.site = site
	t.steps++
	s.Steps++
	s.progress++
	if s.Steps > s.MaxSteps {
		s.exceed()
		return
	}
	s.budget--
	if s.budget > 0 {
		return
	}
	if s.Steps > fairAfter {
		s.pct, s.mean = false, min(s.mean, 10)
	}
	s.nextBudget()
	if n := s.pick(nil); n != nil && n != t {
		s.switchTo(n)
	}
}

// Yield lets another task go on, if there is one.
//
//go:norace
func Yield() {
	s := active
	if s == nil || s.over || s.killing {
		return
	}
	s.cur.steps++
	s.Steps++
	s.progress++
	if s.Steps > s.MaxSteps {
		s.exceed()
		return
	}
	if n := s.pick(s.cur); n != nil {
		if n.state == stBlocked && n.quiesce {
			return
		}
		s.switchTo(n)
	}
}

// exceed ends the simulation: the main task panics and everybody else stops where they are.
//
//go:norace
func (s *Sim) exceed() {
	s.Exceeded = true
	s.abort = OutOfSteps{}
	if s.cur.id == 0 {
		panic(s.abort)
	}
	for {
		s.switchTo(s.tasks[0])
	}
}

// block waits until the task may be able to go on; the caller then tries again.
//
//go:norace
func (s *Sim) block() {
	t := s.cur
	t.state = stBlocked
	t.polled = s.progress
	s.Steps++
	if s.Steps > s.MaxSteps {
		s.exceed()
	}
	n := s.pick(nil)
	if n == nil {
		s.abort = Deadlock{s.Blocked()}
		n = s.tasks[0]
		if n == t {
			panic(s.abort)
		}
	}
	if n != t {
		s.switchTo(n)
	}
	t.state = stRunnable
}

// OutOfSteps is what the main task panics with if the simulation does not end.
type OutOfSteps struct{}

func (OutOfSteps) Error() string { return "the simulation does not end" }

// Deadlock is what the main task panics with if it can never go on.
type Deadlock struct{ Tasks []string }

func (d Deadlock) Error() string { return fmt.Sprint("deadlock: ", d.Tasks) }

// progressed tells blocked tasks to look again.
//
//go:norace
func progressed() {
	if s := active; s != nil {
		s.progress++
	}
}

// sim gives the running simulation if the caller is one of its tasks.
//
//go:norace
func sim() *Sim {
	s := active
	if s == nil || s.over || s.killing {
		return nil
	}
	return s
}

// Go starts a task.
//
//go:norace
func Go(f func()) { GoNamed("", f) }

// GoNamed starts a task with a name and gives its number.
//
//go:norace
func GoNamed(name string, f func()) int {
	s := active
	if s == nil || s.over {
		go f()
		return -1
	}
	if s.killing {
		return -1
	}
	t := s.newTask(name)
	if name == "" {
		t.name = "go@" + s.cur.site
	}
	t.started = true
	go s.start(t, f)
	Y("go")
	return t.id
}

//go:norace
func (s *Sim) start(t *task, f func()) {
	raceOff()
	<-t.wake
	raceOn()
	if t.killd {
		s.finish(t)
		return
	}
	s.body(t, f)
}

// Join waits until a task has ended and tells whether it panicked.
//
//go:norace
func Join(id int) (pan any, stack string) {
	s := active
	t := s.tasks[id]
	for t.state != stDone {
		s.block()
	}
	acquire(unsafe.Pointer(&t.end))
	return t.pan, t.stack
}

// Quiesce waits until no other task can do anything (sleepers do not wake up meanwhile) and gives the number of tasks that
// are blocked.
//
//go:norace
func Quiesce() int {
	s := active
	t := s.cur
	t.quiesce = true
	s.block()
	t.quiesce = false
	n := 0
	for _, o := range s.tasks {
		if o != t && o.state != stDone {
			n++
		} else if o.state == stDone {
			acquire(unsafe.Pointer(&o.end))
		}
	}
	return n
}

// Alive is the number of tasks that have not ended, apart from the calling one.
//
//go:norace
func Alive() int {
	n := 0
	for _, o := range active.tasks {
		if o != active.cur && o.state != stDone {
			n++
		}
	}
	return n
}

// Done tells whether a task has ended.
//
//go:norace
func Done(id int) bool { return active.tasks[id].state == stDone }

// Panicked gives the panics of ended tasks.
//
//go:norace
func (s *Sim) Panicked() (r []string) {
	for _, t := range s.tasks {
		if t.pan != nil {
			r = append(r, fmt.Sprintf("task %d (%s): %v\n%s", t.id, t.name, t.pan, t.stack))
		}
	}
	return r
}

// MainPanic gives the panic of the main task.
func (s *Sim) MainPanic() (any, string) { return s.tasks[0].pan, s.tasks[0].stack }

// Blocked names the tasks that have not ended and where they are.
//
//go:norace
func (s *Sim) Blocked() (r []string) {
	for _, t := range s.tasks {
		if t.state != stDone && t != s.cur {
			r = append(r, fmt.Sprintf("task %d (%s) at %s", t.id, t.name, t.site))
		}
	}
	return r
}

// TaskSteps is the number of steps a task has done.
//
//go:norace
func TaskSteps(id int) int64 { return active.tasks[id].steps }

// Stamp is a logical time: it grows with everything that happens.
//
//go:norace
func Stamp() int64 {
	if active == nil {
		return 0
	}
	active.Steps++
	return active.Steps
}

// Rand gives a number that depends on the schedule's seed.
//
//go:norace
func Rand(n int) int { return active.intn(n) }

// Self is the number of the running task.
//
//go:norace
func Self() int { return active.cur.id }

var frozen *int64

// SetClock makes time.Now of instrumented code return what t points to; nil returns to the simulation's or the real clock.
func SetClock(t *int64) { frozen = t }

// Now stands in for time.Now.
//
//go:norace
func Now() time.Time {
	if frozen != nil {
		return time.Unix(0, *frozen)
	}
	if s := active; s != nil {
		return time.Unix(0, s.now)
	}
	return time.Now()
}

// Sleep stands in for time.Sleep.
//
//go:norace
func Sleep(d time.Duration) {
	s := sim()
	if s == nil {
		if active == nil {
			time.Sleep(d)
		}
		return
	}
	t := s.cur
	t.sleepTo = s.now + int64(d)
	s.block()
	t.sleepTo = -1
}

// Fair makes the scheduler switch often and without preferences from now on: bounded liveness is judged under it.
//
//go:norace
func Fair() {
	active.pct = false
	active.mean = 4
	active.budget = 1
}
