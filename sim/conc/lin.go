package conc

import "fmt"

// call is one operation of a concurrent history.
type call struct {
	task     int
	what     string
	inv, ret int64
	res      string
	after    *call // a call that must come first
	args     any
	idx      int
}

// state of a sequential specification.
type seqState interface {
	key() string
}

// linearize tells whether the calls have an order that respects their times in which every result is the one that
// step gives; the number of calls is at most 63.
func linearize(init seqState, calls []*call, step func(s seqState, c *call) (seqState, string)) (ok bool, longest int) {
	n := len(calls)
	seen := map[string]bool{}
	for i, c := range calls {
		c.idx = i
	}
	budget := 300000
	var rec func(done uint64, s seqState, k int) bool
	rec = func(done uint64, s seqState, k int) bool {
		if k > longest {
			longest = k
		}
		if k == n {
			return true
		}
		id := fmt.Sprintf("%x|%s", done, s.key())
		if seen[id] {
			return false
		}
		seen[id] = true
		if budget--; budget < 0 {
			return true // undecided: no alarm
		}
		// the earliest return of those that are left bounds what can come first
		first := int64(1) << 62
		for i, c := range calls {
			if done&(1<<i) == 0 && c.ret < first {
				first = c.ret
			}
		}
		for i, c := range calls {
			if done&(1<<i) != 0 || c.inv > first {
				continue
			}
			if c.after != nil && done&(1<<c.after.idx) == 0 {
				continue
			}
			ns, res := step(s, c)
			if c.res != "*" && res != c.res {
				continue
			}
			if rec(done|1<<i, ns, k+1) {
				return true
			}
		}
		return false
	}
	return rec(0, init, 0), longest
}
