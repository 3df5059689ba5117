package simrt

import "unsafe"

// Case is one channel operation of a select.
type Case interface {
	try() bool           // attempts the operation against the real channel
	key() unsafe.Pointer // the channel, nil for a nil channel
	sends() bool         // a send
	unbuffered() bool    //
	give(to Case)        // a send hands its value to a receive
	settle(ok bool)      //
}

// R is a receive operation.
type R[T any] struct {
	C   <-chan T
	Val T
	Ok  bool
}

// S is a send operation.
type S[T any] struct {
	C chan<- T
	V T
}

//go:norace
func Rc[T any](c <-chan T) *R[T] { return &R[T]{C: c} }

//go:norace
func Sc[T any](c chan<- T) *S[T] { return &S[T]{C: c} }

// Set the value to send.
//
//go:norace
func (s *S[T]) Set(v T) *S[T] { s.V = v; return s }

// To is Sc.
func To[T any](c chan<- T) *S[T] { return &S[T]{C: c} }

// Send stands in for c <- v.
func (s *S[T]) Send(v T) {
	if active == nil {
		s.C <- v
		return
	}
	s.V = v
	Select(false, s)
}

//go:norace
func (r *R[T]) try() bool {
	select {
	case r.Val, r.Ok = <-r.C:
		return true
	default:
		return false
	}
}

//go:norace
func (r *R[T]) key() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&r.C)) }

//go:norace
func (r *R[T]) sends() bool { return false }

//go:norace
func (r *R[T]) unbuffered() bool { return cap(r.C) == 0 }

//go:norace
func (r *R[T]) give(Case) {}

//go:norace
func (r *R[T]) settle(ok bool) { r.Ok = ok }

//go:norace
func (s *S[T]) try() bool {
	select {
	case s.C <- s.V:
		return true
	default:
		return false
	}
}

//go:norace
func (s *S[T]) key() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&s.C)) }

//go:norace
func (s *S[T]) sends() bool { return true }

//go:norace
func (s *S[T]) unbuffered() bool { return cap(s.C) == 0 }

//go:norace
func (s *S[T]) give(to Case) {
	if r, ok := to.(*R[T]); ok {
		r.Val = s.V
	}
}

//go:norace
func (s *S[T]) settle(bool) {}

// attempt tries one case: against a task that waits for the opposite operation, then against the real channel.
//
//go:norace
func (s *Sim) attempt(c Case) bool {
	k := c.key()
	if k == nil {
		return false
	}
	if c.unbuffered() {
		// a waiting counterpart, chosen from the seed
		n := 0
		for _, t := range s.tasks {
			if t != s.cur && s.waits(t, k, !c.sends()) >= 0 {
				n++
			}
		}
		if n > 0 {
			n = s.intn(n)
			for _, t := range s.tasks {
				if t == s.cur {
					continue
				}
				i := s.waits(t, k, !c.sends())
				if i < 0 {
					continue
				}
				if n > 0 {
					n--
					continue
				}
				o := t.cases[i]
				if c.sends() {
					c.give(o)
				} else {
					o.give(c)
				}
				o.settle(true)
				c.settle(true)
				t.matched = i
				// both sides see what the other did before
				acquire(unsafe.Pointer(&t.sync))
				release(unsafe.Pointer(&s.cur.sync))
				release(unsafe.Pointer(&t.end))
				s.progress++
				return true
			}
		}
	}
	if c.try() {
		s.progress++
		return true
	}
	return false
}

// waits tells which pending case of a task is an operation of the given direction on a channel; -1 if none.
//
//go:norace
func (s *Sim) waits(t *task, k unsafe.Pointer, sends bool) int {
	if t.state != stBlocked || t.matched >= 0 {
		return -1
	}
	for i, c := range t.cases {
		if c.sends() == sends && c.key() == k {
			return i
		}
	}
	return -1
}

// Select performs one of the operations and gives its index, or -1 if none is possible and there is a default.
//
//go:norace
func Select(dflt bool, cases ...Case) int {
	s := sim()
	if s == nil {
		return selectReal(dflt, cases)
	}
	Y("select")
	t := s.cur
	n := len(cases)
	for {
		off, rev := 0, false
		if n > 1 {
			off, rev = s.intn(n), s.intn(2) == 1
		}
		for j := 0; j < n; j++ {
			i := (off + j) % n
			if rev {
				i = n - 1 - i
			}
			if s.attempt(cases[i]) {
				return i
			}
		}
		if dflt {
			return -1
		}
		t.cases, t.matched = cases, -1
		release(unsafe.Pointer(&t.sync))
		t.site = "channel"
		s.block()
		t.cases = nil
		if m := t.matched; m >= 0 {
			t.matched = -1
			acquire(unsafe.Pointer(&t.end))
			return m
		}
	}
}

// selectReal is used outside of simulations: a plain loop that is good enough for set-up code.
func selectReal(dflt bool, cases []Case) int {
	for {
		for i, c := range cases {
			if c.key() != nil && c.try() {
				return i
			}
		}
		if dflt || active != nil {
			return -1
		}
		Gosched()
	}
}

// Recv stands in for <-c.
func Recv[T any](c <-chan T) T {
	if active == nil {
		return <-c
	}
	r := Rc(c)
	Select(false, r)
	return r.Val
}

// Recv2 stands in for v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	if active == nil {
		v, ok := <-c
		return v, ok
	}
	r := Rc(c)
	Select(false, r)
	return r.Val, r.Ok
}

// Close stands in for close(c).
func Close[T any](c chan<- T) {
	Y("close")
	close(c)
	progressed()
}
