package conc

import (
	"fmt"
	"math"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/sim/core"
	"verif.local/sim/ledger"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

// Clock is the world of nodes whose clocks tick, are skewed, are stepped by time synchronisation and start anywhere.
type Clock struct{}

func (Clock) Plan(r *core.RNG, prop, tier string) []core.Op {
	ops := []core.Op{{K: "schedule", S: r.U64()}, {K: "net", S: r.U64()}}
	for i := r.Range(8, 40); i > 0; i-- {
		ops = append(ops, core.Op{K: core.Pick(r, []string{"tick", "tick", "jump", "boundary", "boundary", "boundary", "step", "restart", "slots", "slots", "epochs", "far", "race", "race", "net"}), S: r.U64()})
	}
	return ops
}

// instant is a time as seconds and nanoseconds after 1970.
type instant struct {
	sec  int64
	nsec int64 // 0..1e9-1
}

func (i instant) time() time.Time { return time.Unix(i.sec, i.nsec) }
func (i instant) add(ns int64) instant {
	s, n := i.sec+ns/1e9, i.nsec+ns%1e9
	if n < 0 {
		s, n = s-1, n+1e9
	} else if n >= 1e9 {
		s, n = s+1, n-1e9
	}
	return instant{s, n}
}
func (i instant) before(j instant) bool { return i.sec < j.sec || i.sec == j.sec && i.nsec < j.nsec }
func (i instant) String() string        { return fmt.Sprintf("%d.%09d", i.sec, i.nsec) }

// ref is the reference of the clock of a network, on whole numbers.
type ref struct {
	g    int64 // genesis slot
	unix int64
	dur  int64
	exp  uint
}

const lastSlot = math.MaxUint32

// slot gives the slot of an instant; ok is false past the last slot.
func (f ref) slot(i instant) (s int64, ok bool) {
	if i.sec < f.unix {
		return f.g, true
	}
	s = f.g + 1 + (i.sec-f.unix)/f.dur
	if s > lastSlot {
		return lastSlot, false
	}
	return s, true
}

// start and end are the first and the last instant of a slot; those of the slots up to the genesis slot are the last instant before genesis.
func (f ref) start(s int64) instant {
	if s <= f.g {
		return instant{f.unix, 0}.add(-1)
	}
	return instant{f.unix + (s-f.g-1)*f.dur, 0}
}
func (f ref) end(s int64) instant {
	if s <= f.g {
		return instant{f.unix, 0}.add(-1)
	}
	return instant{f.unix + (s-f.g)*f.dur, 0}.add(-1)
}

func (f ref) epoch(s int64) int64 {
	if s <= f.g {
		return 0
	}
	return (s - f.g) >> f.exp
}
func (f ref) epochStart(e int64) int64 { return f.g + e<<f.exp }
func (f ref) epochEnd(e int64) int64   { return f.g + (e+1)<<f.exp - 1 }

type clockNode struct {
	tp   *iotago.TimeProvider
	skew int64 // nanoseconds
}

type clockNet struct {
	c     *core.Ctx
	f     ref
	p     *model.Params // nil: created from values
	nodes []*clockNode
	at    instant // true time
	last  map[*clockNode]lastRead
}

type lastRead struct {
	at   instant
	slot iotago.SlotIndex
}

func (n *clockNet) boot() *iotago.TimeProvider {
	if n.p != nil {
		return ledger.RealAPI(n.p).TimeProvider()
	}
	return iotago.NewTimeProvider(iotago.SlotIndex(n.f.g), n.f.unix, n.f.dur, uint8(n.f.exp))
}

func newClockNet(c *core.Ctx, r *core.RNG) *clockNet {
	n := &clockNet{c: c, last: map[*clockNode]lastRead{}}
	if r.Pct(40) {
		n.p = ledger.GenParams(r)
		if r.Bool() {
			n.p.GenesisSlot = core.Pick(r, []uint32{0, 1, 7, 1 << 20, 1 << 31, r.U32() >> uint(r.Intn(32))})
		}
		n.f = ref{int64(n.p.GenesisSlot), n.p.GenesisUnix, int64(n.p.SlotDuration), uint(n.p.SPE)}
	} else {
		n.f = ref{
			g:    int64(core.Pick(r, []uint32{0, 0, 0, 1, 2, 100, 65535, r.U32(), r.U32() >> uint(r.Intn(32)), lastSlot, lastSlot - uint32(r.Intn(1000))})),
			unix: core.Pick(r, []int64{0, 1, 1600000000, 1700000000, 1<<32 - 1, 1 << 32, 9200000000, int64(r.U64() >> uint(31+r.Intn(33)))}),
			dur:  core.Pick(r, []int64{1, 2, 3, 10, 10, 13, 60, 255, int64(r.Range(1, 255))}),
			exp:  uint(core.Pick(r, []int{0, 1, 3, 5, 13, 20, r.Range(0, 31)})),
		}
	}
	for i := r.Range(1, 4); i > 0; i-- {
		x := &clockNode{tp: n.boot()}
		if r.Bool() {
			x.skew = core.Pick(r, []int64{1, -1, 1e3, -1e6, 1e9, -1e9, n.f.dur * 1e9, -n.f.dur * 1e9, int64(r.U64n(1e12)) - 5e11})
			c.Fault("clock-skew")
		}
		n.nodes = append(n.nodes, x)
	}
	n.at = instant{n.f.unix, 0}
	n.at = n.someInstant(r)
	c.Logf("net genesis slot %d at %d, slots of %d s, epochs of 2^%d slots, %d nodes, decoded %v", n.f.g, n.f.unix, n.f.dur, n.f.exp, len(n.nodes), n.p != nil)
	c.State("net", fmt.Sprint(n.f.g == 0, n.f.g > 1<<31, n.f.dur, n.f.exp, n.p != nil))
	return n
}

// someSlot draws a slot that the parameters can represent, mostly at or near the edges of epochs and of the range.
func (n *clockNet) someSlot(r *core.RNG) int64 {
	var s int64
	switch r.Weighted(3, 3, 2, 2, 1, 1) {
	case 0:
		s = n.f.g + int64(r.Intn(1<<uint(min(n.f.exp+3, 40))))
	case 1:
		s = n.f.epochStart(int64(r.Intn(1 << uint(r.Intn(12)))))
	case 2:
		s = n.f.g + int64(r.U64n(lastSlot))>>uint(r.Intn(32))
	case 3:
		s, _ = n.f.slot(n.at)
	case 4:
		s = lastSlot - int64(r.Intn(3))<<uint(r.Intn(20))
	case 5:
		s = int64(r.U64n(uint64(n.f.g) + 1))
	}
	s += int64(r.Range(-2, 2))
	return max(0, min(s, lastSlot))
}

func (n *clockNet) someInstant(r *core.RNG) instant {
	if r.Pct(8) { // before genesis
		return instant{n.f.unix, 0}.add(-int64(r.U64() >> uint(1+r.Intn(62))))
	}
	s := n.someSlot(r)
	i := n.f.start(s)
	switch r.Intn(5) {
	case 0:
	case 1:
		i = n.f.end(s)
	case 2:
		i = i.add(-1)
	case 3:
		i = n.f.end(s).add(1)
	default:
		i = i.add(int64(r.U64n(uint64(n.f.dur) * 1e9)))
	}
	return i
}

func (n *clockNet) wantSlot(tp *iotago.TimeProvider, i instant) iotago.SlotIndex {
	c := n.c
	c.Evals++
	got := tp.SlotFromTime(i.time())
	want, ok := n.f.slot(i)
	if !ok {
		c.Count("past-last-slot")
	}
	c.Check(int64(got) == want, "slot-of-time", "time %s is in slot %d instead of %d (genesis slot %d at %d, %d s per slot)", i, got, want, n.f.g, n.f.unix, n.f.dur)
	// the location and the way a time was made do not matter
	if u := tp.SlotFromTime(i.time().In(time.FixedZone("x", 3600*5+1))); u != got {
		c.Fail("time-zone", "time %s is in slot %d or %d, depending on its zone", i, got, u)
	}
	return got
}

// slotFacts compares everything about a slot with the reference.
func (n *clockNet) slotFacts(tp *iotago.TimeProvider, s int64) {
	c, f := n.c, n.f
	c.Evals++
	slot := iotago.SlotIndex(s)
	at := func(t time.Time) instant { return instant{t.Unix(), int64(t.Nanosecond())} }
	st, en := at(tp.SlotStartTime(slot)), at(tp.SlotEndTime(slot))
	c.Check(st == f.start(s), "slot-start", "slot %d starts at %s instead of %s (genesis slot %d at %d, %d s per slot)", s, st, f.start(s), f.g, f.unix, f.dur)
	c.Check(en == f.end(s), "slot-end", "slot %d ends at %s instead of %s (genesis slot %d at %d, %d s per slot)", s, en, f.end(s), f.g, f.unix, f.dur)
	in := slot
	if s < f.g {
		in = iotago.SlotIndex(f.g)
	}
	c.Check(n.wantSlot(tp, st) == in && n.wantSlot(tp, en) == in, "bracket", "the start or end of slot %d is not in it", s)
	if s > f.g {
		c.Check(n.wantSlot(tp, st.add(-1)) == slot-1, "bracket", "the instant before slot %d is not in the slot before", s)
	}
	if s >= f.g && s < lastSlot {
		c.Check(n.wantSlot(tp, en.add(1)) == slot+1, "bracket", "the instant after slot %d is not in the next slot", s)
	}
	n.epochFacts(tp, s)
}

func (n *clockNet) epochFacts(tp *iotago.TimeProvider, s int64) {
	c, f := n.c, n.f
	c.Evals++
	slot := iotago.SlotIndex(s)
	e := int64(tp.EpochFromSlot(slot))
	c.Check(e == f.epoch(s), "epoch-of-slot", "slot %d is in epoch %d instead of %d (genesis slot %d, 2^%d slots per epoch)", s, e, f.epoch(s), f.g, f.exp)
	if f.epochStart(e) <= lastSlot {
		c.Check(int64(tp.EpochStart(iotago.EpochIndex(e))) == f.epochStart(e), "epoch-start", "epoch %d starts at slot %d instead of %d", e, tp.EpochStart(iotago.EpochIndex(e)), f.epochStart(e))
	}
	if f.epochEnd(e) > lastSlot {
		c.Count("cut-off-epoch")
		return
	}
	c.Check(int64(tp.EpochEnd(iotago.EpochIndex(e))) == f.epochEnd(e), "epoch-end", "epoch %d ends at slot %d instead of %d", e, tp.EpochEnd(iotago.EpochIndex(e)), f.epochEnd(e))
	if end := f.epochEnd(e); end < lastSlot {
		c.Check(int64(tp.EpochFromSlot(iotago.SlotIndex(end))) == e && int64(tp.EpochFromSlot(iotago.SlotIndex(end+1))) == e+1, "epoch-gap", "epochs %d and %d leave a gap or overlap", e, e+1)
		if s >= f.g {
			n.helper("SlotsBeforeNextEpoch", s, int64(tp.SlotsBeforeNextEpoch(slot)), end+1-s)
		}
	}
	if s >= f.g {
		n.helper("SlotsSinceEpochStart", s, int64(tp.SlotsSinceEpochStart(slot)), s-f.epochStart(e))
	} else {
		c.Check(tp.SlotsBeforeNextEpoch(slot) == 0 && tp.SlotsSinceEpochStart(slot) == 0, "epoch-helper", "there are slots before the next epoch or since the start of the epoch at slot %d before the genesis slot %d", s, f.g)
	}
}

// helper judges the helpers that count slots from or to the edge of the epoch.
func (n *clockNet) helper(name string, s, got, want int64) {
	if got == want {
		return
	}
	if n.f.g != 0 && uint32(got) == uint32(want+n.f.g) {
		n.c.Finding("genesis-slot", "epoch-helper", "%s(%d) is %d instead of %d with genesis slot %d", name, s, got, want, n.f.g)
		return
	}
	n.c.Fail("epoch-helper", "%s(%d) is %d instead of %d (genesis slot %d, 2^%d slots per epoch)", name, s, got, want, n.f.g, n.f.exp)
}

// read lets a node read its clock.
func (n *clockNet) read(x *clockNode) {
	c := n.c
	i := n.at.add(x.skew)
	if i.sec < 0 || i.sec > 9223372035 {
		n.wantSlot(x.tp, i) // not a time that the simulated clock can show
		return
	}
	ns := i.sec*1e9 + i.nsec
	simrt.SetClock(&ns)
	defer simrt.SetClock(nil)
	c.Evals++
	got, e := x.tp.CurrentSlot(), x.tp.CurrentEpoch()
	want, _ := n.f.slot(i)
	c.Check(int64(got) == want, "current-slot", "the current slot at %s is %d instead of %d (genesis slot %d at %d, %d s per slot)", i, got, want, n.f.g, n.f.unix, n.f.dur)
	c.Check(int64(e) == n.f.epoch(want), "current-epoch", "the current epoch at %s is %d instead of %d", i, e, n.f.epoch(want))
	if l, ok := n.last[x]; ok {
		if l.at.before(i) && got < l.slot || i.before(l.at) && got > l.slot {
			c.Fail("not-monotonic", "the clock moved from %s to %s and the slot from %d to %d", l.at, i, l.slot, got)
		}
	}
	n.last[x] = lastRead{i, got}
	n.wantSlot(x.tp, i)
}

// race lets nodes read their clock while it moves.
func (n *clockNet) race(r *core.RNG, seed uint64) {
	c := n.c
	type move struct {
		at int64
		i  instant
	}
	type reading struct {
		from, to int64
		slot     int64
		epoch    bool
	}
	x := core.Pick(r, n.nodes)
	var moves []move
	i := n.at
	for k := r.Range(2, 8); k > 0; k-- {
		i = n.near(r, i)
		if i.sec < 0 || i.sec > 9223372035 {
			return
		}
		moves = append(moves, move{i: i})
	}
	clock := moves[0].i.sec*1e9 + moves[0].i.nsec
	callers := r.Range(1, 3)
	calls := r.Range(1, 4)
	got := make([][]reading, callers)
	Exec(c, seed, 0, 200_000, func(s *simrt.Sim) {
		simrt.SetClock(&clock)
		defer simrt.SetClock(nil)
		var ids []int
		ids = append(ids, simrt.GoNamed("clock", func() {
			for k := range moves[1:] {
				m := &moves[k+1]
				for w := simrt.Rand(6); w > 0; w-- {
					simrt.Y("tick")
				}
				m.at = simrt.Stamp()
				clock = m.i.sec*1e9 + m.i.nsec
			}
		}))
		for k := range got {
			ids = append(ids, simrt.GoNamed(fmt.Sprint("caller", k), func() {
				for l := 0; l < calls; l++ {
					a := reading{from: simrt.Stamp(), epoch: (k+l)%2 == 1}
					if a.epoch {
						a.slot = int64(x.tp.CurrentEpoch())
					} else {
						a.slot = int64(x.tp.CurrentSlot())
					}
					a.to = simrt.Stamp()
					got[k] = append(got[k], a)
					simrt.Y("between")
				}
			}))
		}
		for _, id := range ids {
			simrt.Join(id)
		}
	})
	c.Fault("clock-moved-during-call")
	for _, rs := range got {
		for _, a := range rs {
			c.Evals++
			ok := false
			for k, m := range moves {
				if m.at > a.to || k+1 < len(moves) && moves[k+1].at < a.from {
					continue
				}
				want, _ := n.f.slot(m.i)
				if a.epoch {
					want = n.f.epoch(want)
				}
				ok = ok || want == a.slot
			}
			c.Check(ok, "torn-read", "a reading of the moving clock gives %d (epoch: %v), which it never showed during the call", a.slot, a.epoch)
		}
	}
	n.at = moves[len(moves)-1].i
}

// near moves an instant a little, or to an edge.
func (n *clockNet) near(r *core.RNG, i instant) instant {
	s, _ := n.f.slot(i)
	switch r.Intn(5) {
	case 0:
		return i.add(int64(r.U64n(2e9 * uint64(n.f.dur))))
	case 1:
		return i.add(-int64(r.U64n(2e9 * uint64(n.f.dur))))
	case 2:
		return n.f.start(s)
	case 3:
		return n.f.end(s)
	}
	return n.f.end(s).add(1)
}

func (Clock) Run(c *core.Ctx) {
	seed := c.Plan.Seed
	var n *clockNet
	for k, op := range c.Plan.Ops {
		r := core.NewRNG(op.S)
		if op.K == "schedule" {
			seed = op.S
			continue
		}
		if op.K == "net" || n == nil {
			n = newClockNet(c, r)
			n.getters(core.Pick(r, n.nodes).tp)
			continue
		}
		c.Steps++
		before := n.at
		switch op.K {
		case "tick":
			n.at = n.at.add(int64(r.U64n(uint64(n.f.dur) * 3e9)))
		case "step":
			c.Fault("clock-step")
			n.at = n.near(r, n.at)
		case "jump":
			c.Fault("clock-jump")
			n.at = n.someInstant(r)
		case "boundary":
			s, _ := n.f.slot(n.at)
			if r.Bool() {
				s = n.f.epochEnd(n.f.epoch(s)) + 1
			} else {
				s += int64(r.Range(-1, 2))
			}
			n.at = n.f.start(max(0, min(s, lastSlot))).add(int64(r.Range(-1, 1)))
		case "restart":
			c.Fault("restart")
			for _, x := range n.nodes {
				if r.Bool() {
					x.tp = n.boot()
				}
			}
		case "slots":
			n.slotFacts(core.Pick(r, n.nodes).tp, n.someSlot(r))
		case "epochs":
			e := n.f.epoch(n.someSlot(r))
			tp := core.Pick(r, n.nodes).tp
			for _, s := range []int64{n.f.epochStart(e), n.f.epochEnd(e), n.f.epochEnd(e) + 1} {
				if s <= lastSlot {
					n.slotFacts(tp, s)
				}
			}
		case "far": // times that a peer names
			tp := core.Pick(r, n.nodes).tp
			i := n.someInstant(r)
			if r.Bool() {
				i = instant{n.f.unix, int64(r.Intn(1e9))}
				i.sec += int64(r.U64() >> uint(28+r.Intn(30)))
			}
			j := i.add(int64(r.U64() >> uint(1+r.Intn(62))))
			c.Check(n.wantSlot(tp, i) <= n.wantSlot(tp, j), "not-monotonic", "time %s is in a later slot than time %s", i, j)
		case "race":
			n.race(r, core.Mix(seed, uint64(k)))
		}
		if n.at.before(before) {
			c.Fault("clock-backwards")
		} else if d := n.at.sec - before.sec; d > 0 && d < 1<<32 {
			c.SimNs += d * 1e9
		}
		s, _ := n.f.slot(n.at)
		c.Logf("%s: time %s slot %d", op.K, n.at, s)
		c.State(op.K, fmt.Sprint(n.at.before(before), n.at.sec < n.f.unix, n.f.start(s) == n.at, n.f.end(s) == n.at, n.f.epochStart(n.f.epoch(s)) == s, n.f.epochEnd(n.f.epoch(s)) == s, n.f.g != 0))
		for _, x := range n.nodes {
			n.read(x)
		}
		n.agree()
	}
	if n != nil {
		c.Sample(fmt.Sprintf("%d nodes, genesis slot %d at %d, %d s per slot, 2^%d slots per epoch, at %s", len(n.nodes), n.f.g, n.f.unix, n.f.dur, n.f.exp, n.at))
	}
}

// agree compares the nodes of a network on the same instant.
func (n *clockNet) agree() {
	for _, x := range n.nodes[1:] {
		a, b := n.nodes[0].tp.SlotFromTime(n.at.time()), x.tp.SlotFromTime(n.at.time())
		n.c.Check(a == b, "disagree", "two nodes map %s to slots %d and %d", n.at, a, b)
	}
}

func (n *clockNet) getters(tp *iotago.TimeProvider) {
	f := n.f
	n.c.Evals++
	ok := int64(tp.GenesisSlot()) == f.g && tp.GenesisUnixTime() == f.unix && tp.GenesisTime().Equal(time.Unix(f.unix, 0)) && tp.SlotDurationSeconds() == f.dur &&
		uint(tp.SlotsPerEpochExponent()) == f.exp && int64(tp.EpochDurationSlots()) == 1<<f.exp && tp.EpochDurationSeconds() == f.dur<<f.exp
	n.c.Check(ok, "parameters", "the time provider does not show the parameters it was made from: genesis slot %d at %d (%s), %d s per slot, 2^%d = %d slots and %d s per epoch",
		tp.GenesisSlot(), tp.GenesisUnixTime(), tp.GenesisTime(), tp.SlotDurationSeconds(), tp.SlotsPerEpochExponent(), tp.EpochDurationSlots(), tp.EpochDurationSeconds())
}

// KnownClock reproduces the known finding about the epoch helpers.
func KnownClock(c *core.Ctx) {
	n := &clockNet{c: c, f: ref{5, 1600000000, 10, 3}}
	tp := n.boot()
	for s := int64(5); s < 40; s++ {
		n.epochFacts(tp, s)
	}
}
