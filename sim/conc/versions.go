package conc

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/sim/core"
	"verif.local/sim/ledger"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

// Versions is the world of protocol versions that change while they are looked up.
type Versions struct{}

var versionWriters = []string{"paramsAt", "params", "version", "future", "slot"}
var versionReaders = []string{"forVersion", "forSlot", "forEpoch", "forTime", "latest", "committed", "paramsOf", "hashOf", "epochFor", "versionFor", "list", "hash"}

func (Versions) Plan(r *core.RNG, prop, tier string) []core.Op {
	n := r.Range(6, 20)
	if tier == "thorough" {
		n = r.Range(6, 30)
	}
	ops := make([]core.Op, n)
	wr := r.Range(15, 60)
	for i := range ops {
		k := core.Pick(r, versionReaders)
		if r.Pct(wr) {
			k = core.Pick(r, versionWriters)
		}
		ops[i] = core.Op{K: k, S: r.U64()}
	}
	return append([]core.Op{{K: "schedule", S: r.U64()}}, ops...)
}

// vstate is the sequential specification.
type vstate struct {
	params    [16]bool
	future    [16]uint64 // announced hash, 0: none
	start     [16]uint32 // start epoch + 1, 0: unknown
	latest    byte       // 0: none
	committed byte
	slot      uint32
	genesis   uint32
	spe       byte
	hashes    *[16]string
}

func (s vstate) key() string {
	return fmt.Sprint(s.params, s.future, s.start, s.latest, s.committed, s.slot)
}

func (s vstate) epoch(slot uint32) uint32 {
	if slot <= s.genesis {
		return 0
	}
	return (slot - s.genesis) >> s.spe
}

func (s vstate) version(epoch uint32) (byte, bool) {
	for v := 15; v >= 0; v-- {
		if s.start[v] != 0 && s.start[v]-1 <= epoch {
			return byte(v), true
		}
	}
	return 0, false
}

func (s vstate) has(v byte) bool { return v == s.latest || v == s.committed || s.params[v] }

// commit moves the committed version; false if it can not.
func (s *vstate) commit() bool {
	if s.latest == 0 {
		return true
	}
	v, ok := s.version(s.epoch(s.slot))
	if !ok {
		return false
	}
	if s.committed == 0 || v > s.committed {
		if !s.has(v) {
			return false
		}
		s.committed = v
	}
	return true
}

type vargs struct {
	k     string
	v     byte
	epoch uint32
	slot  uint32
	fut   uint64
	ns    int64
}

func futureHash(x uint64) (h iotago.Identifier) {
	binary.LittleEndian.PutUint64(h[:], x)
	h[31] = 0xAA
	return h
}

func done(ok bool) string {
	if ok {
		return "done"
	}
	return "refused"
}

func (s vstate) step(a *vargs) (vstate, string) {
	api := func(v byte, ok bool) string {
		if !ok || !s.has(v) {
			return "refused"
		}
		return fmt.Sprintf("api %d", v)
	}
	switch a.k {
	case "params":
		s.params[a.v] = true
		s.future[a.v] = 0
		if s.latest < a.v {
			s.latest = a.v
		}
		return s, "done"
	case "version":
		if s.start[a.v] == 0 {
			s.start[a.v] = a.epoch + 1
		}
		ok := s.commit()
		return s, done(ok)
	case "future":
		if s.start[a.v] == 0 {
			s.start[a.v] = a.epoch + 1
		}
		s.future[a.v] = a.fut
		return s, "done"
	case "slot":
		s.slot = a.slot
		ok := s.commit()
		return s, done(ok)
	case "forVersion":
		return s, api(a.v, true)
	case "forSlot", "forTime":
		v, ok := s.version(s.epoch(a.slot))
		return s, api(v, ok)
	case "forEpoch":
		v, ok := s.version(a.epoch)
		return s, api(v, ok)
	case "latest":
		return s, fmt.Sprintf("api %d", s.latest)
	case "committed":
		if s.committed == 0 {
			return s, "none"
		}
		return s, fmt.Sprintf("api %d", s.committed)
	case "paramsOf":
		if s.params[a.v] {
			return s, fmt.Sprintf("params %d", a.v)
		}
		return s, "none"
	case "hashOf":
		if s.params[a.v] {
			return s, s.hashes[a.v]
		}
		if s.future[a.v] != 0 {
			h := futureHash(s.future[a.v])
			return s, hex.EncodeToString(h[:])
		}
		return s, strings.Repeat("00", 32)
	case "epochFor":
		if s.start[a.v] == 0 {
			return s, "none"
		}
		return s, fmt.Sprint(s.start[a.v] - 1)
	case "versionFor":
		v, ok := s.version(s.epoch(a.slot))
		if !ok {
			return s, "refused"
		}
		return s, fmt.Sprint(v)
	case "list":
		r := ""
		for v, e := range s.start {
			if e != 0 {
				r += fmt.Sprintf("%d@%d ", v, e-1)
			}
		}
		return s, r
	case "hash":
		var b []byte
		for v, e := range s.start {
			if e == 0 {
				continue
			}
			b = append(b, byte(v))
			b = binary.LittleEndian.AppendUint32(b, e-1)
			switch {
			case s.params[v]:
				h, _ := hex.DecodeString(s.hashes[v])
				b = append(b, h...)
			case s.future[v] != 0:
				h := futureHash(s.future[v])
				b = append(b, h[:]...)
			default:
				return s, "refused"
			}
		}
		h := blake2b.Sum256(b)
		return s, hex.EncodeToString(h[:])
	}
	panic("unknown operation " + a.k)
}

func (Versions) Run(c *core.Ctx) {
	base := ledger.GenParams(c.Rng.Fork())
	base.DecayFactors = base.DecayFactors[:min(len(base.DecayFactors), 3)]
	versions := []byte{3, 4, 5, 7}
	var hashes [16]string
	wire := map[byte][]byte{}
	for _, v := range versions {
		p := *base
		p.Version = v
		p.StorageCost += uint64(v)
		wire[v] = p.Bytes()
		h := blake2b.Sum256(wire[v])
		hashes[v] = hex.EncodeToString(h[:])
	}
	make1 := func(v byte) iotago.ProtocolParameters {
		p := *base
		p.Version = 3
		p.StorageCost += uint64(v)
		pp, _, err := iotago.ProtocolParametersFromBytes(p.Bytes())
		if err != nil {
			panic(err)
		}
		if v != 3 {
			iotago.WithVersion(iotago.Version(v))(pp.(*iotago.V3ProtocolParameters))
		}
		return pp
	}
	seed := c.Plan.Seed
	nt := c.Rng.Range(2, 4)
	var todo [4][]*vargs
	made := map[*vargs]iotago.ProtocolParameters{}
	spe := uint32(1) << base.SPE
	for _, op := range c.Plan.Ops {
		r := core.NewRNG(op.S)
		if op.K == "schedule" {
			seed = op.S
			continue
		}
		a := &vargs{k: op.K, v: core.Pick(r, versions), epoch: uint32(r.Intn(6)), fut: 1 + uint64(r.Intn(3))}
		if r.Pct(10) {
			a.v = byte(r.Intn(9)) // one nobody knows
			if _, ok := wire[a.v]; !ok && (a.k == "params" || a.k == "paramsAt" || a.k == "version" || a.k == "future") {
				a.v = 4
			}
		}
		a.slot = base.GenesisSlot + a.epoch*spe + uint32(r.Intn(int(spe)))
		if r.Pct(30) {
			a.slot = uint32(r.Near(uint64(base.GenesisSlot + a.epoch*spe)))
		}
		if a.k == "forTime" {
			a.ns = slotStart(base, a.slot) + int64(r.Intn(1000))
		}
		if a.k == "params" || a.k == "paramsAt" {
			made[a] = make1(a.v)
		}
		t := r.Intn(nt)
		todo[t] = append(todo[t], a)
	}
	first := make1(3)
	c3 := c.Rng.Fork()
	extra := c3.Pct(50)
	var second iotago.ProtocolParameters
	if extra {
		second = make1(4)
	}
	cached := map[byte]iotago.API{}
	for _, v := range versions {
		if v != 3 {
			cached[v] = iotago.V3API(make1(v))
		}
	}
	init := vstate{genesis: base.GenesisSlot, spe: base.SPE, hashes: &hashes}
	var hist [4][]*call
	var last []*call
	var e *iotago.EpochBasedProvider
	Exec(c, seed, 0, 400000, func(s *simrt.Sim) {
		e = iotago.NewEpochBasedProvider(iotago.WithAPIForMissingVersionCallback(func(p iotago.ProtocolParameters) (iotago.API, error) {
			if a := cached[byte(p.Version())]; a != nil {
				return a, nil
			}
			return nil, fmt.Errorf("version %d is not supported", p.Version())
		}))
		e.AddProtocolParametersAtEpoch(first, 0)
		init.params[3], init.latest, init.start[3] = true, 3, 1
		init.commit()
		if extra {
			e.AddProtocolParametersAtEpoch(second, 2)
			init.params[4], init.latest, init.start[4] = true, 4, 3
			init.commit()
		}
		var ids []int
		for t := 0; t < nt; t++ {
			ids = append(ids, simrt.GoNamed(fmt.Sprint("user", t), func() {
				for _, a := range todo[t] {
					hist[t] = append(hist[t], versionCall(e, a, made[a], t, wire)...)
				}
			}))
		}
		for _, id := range ids {
			simrt.Join(id)
		}
		for _, k := range []string{"latest", "committed", "list", "hash"} {
			last = append(last, versionCall(e, &vargs{k: k}, nil, nt, wire)...)
		}
		for ep := uint32(0); ep < 6; ep++ {
			last = append(last, versionCall(e, &vargs{k: "forEpoch", epoch: ep}, nil, nt, wire)...)
		}
	})
	var all []*call
	for t := 0; t < nt; t++ {
		all = append(all, hist[t]...)
	}
	all = append(all, last...)
	kinds := map[string]bool{}
	for _, x := range all {
		c.Logf("%d [%d,%d] %s -> %s", x.task, x.inv, x.ret, x.what, x.res)
		c.Evals++
		c.Count("op." + x.args.(*vargs).k)
		kinds[x.args.(*vargs).k+" "+strings.Fields(x.res + " -")[0]] = true
		if strings.HasPrefix(x.res, "broken") {
			c.Fail("half-updated", "%s returned %s", x.what, x.res)
		}
	}
	c.State(core.SortedKeys(kinds)...)
	if len(all) > 63 {
		return
	}
	ok, n := linearize(init, all, func(s seqState, x *call) (seqState, string) {
		return s.(vstate).step(x.args.(*vargs))
	})
	if !ok {
		c.Fail("not-linearizable", "no sequential order of the %d calls explains their results (at most %d of them): %s", len(all), n, history(all))
	}
	if c.Keep || len(c.Samples) == 0 {
		c.Sample(history(all))
	}
}

func history(all []*call) string {
	var b strings.Builder
	for _, x := range all {
		fmt.Fprintf(&b, "task %d %s=%s; ", x.task, x.what, x.res)
	}
	return b.String()
}

func slotStart(p *model.Params, slot uint32) int64 {
	if slot <= p.GenesisSlot {
		return p.GenesisUnix*1e9 - 1001
	}
	return (p.GenesisUnix + int64(slot-p.GenesisSlot-1)*int64(p.SlotDuration)) * 1e9
}

// versionCall performs one operation on the provider.
func versionCall(e *iotago.EpochBasedProvider, a *vargs, pp iotago.ProtocolParameters, task int, wire map[byte][]byte) (r []*call) {
	do := func(a *vargs, f func() string) *call {
		x := &call{task: task, what: fmt.Sprintf("%s(v%d e%d s%d)", a.k, a.v, a.epoch, a.slot), args: a}
		x.inv = simrt.Stamp()
		func() {
			x.res = "?"
			defer func() {
				if p := recover(); p != nil {
					x.res = "refused"
				}
			}()
			x.res = f()
		}()
		x.ret = simrt.Stamp()
		return x
	}
	api := func(ap iotago.API) string {
		if ap == nil {
			return "none"
		}
		v := byte(ap.Version())
		if p := ap.ProtocolParameters(); p == nil || byte(p.Version()) != v {
			return fmt.Sprintf("broken: api %d with other parameters", v)
		}
		return fmt.Sprintf("api %d", v)
	}
	if a.k == "paramsAt" {
		// one call, two steps
		p, v := *a, *a
		p.k, v.k = "params", "version"
		x := do(a, func() string { e.AddProtocolParametersAtEpoch(pp, iotago.EpochIndex(a.epoch)); return "done" })
		y := *x
		x.args, y.args = &p, &v
		x.what, y.what = "AddAt:"+x.what, "AddAt2:"+y.what
		y.after = x
		if x.res == "refused" {
			x.res, y.res = "done", "refused"
		}
		return append(r, x, &y)
	}
	return append(r, do(a, func() string {
		switch a.k {
		case "params":
			e.AddProtocolParameters(pp)
			return "done"
		case "version":
			e.AddVersion(iotago.Version(a.v), iotago.EpochIndex(a.epoch))
			return "done"
		case "future":
			e.AddFutureVersion(iotago.Version(a.v), futureHash(a.fut), iotago.EpochIndex(a.epoch))
			return "done"
		case "slot":
			e.SetCommittedSlot(iotago.SlotIndex(a.slot))
			return "done"
		case "forVersion":
			ap, err := e.APIForVersion(iotago.Version(a.v))
			if err != nil {
				return "refused"
			}
			return api(ap)
		case "forSlot":
			return api(e.APIForSlot(iotago.SlotIndex(a.slot)))
		case "forEpoch":
			return api(e.APIForEpoch(iotago.EpochIndex(a.epoch)))
		case "forTime":
			return api(e.APIForTime(time.Unix(0, a.ns)))
		case "latest":
			return api(e.LatestAPI())
		case "committed":
			return api(e.CommittedAPI())
		case "paramsOf":
			p := e.ProtocolParameters(iotago.Version(a.v))
			if p == nil {
				return "none"
			}
			b, err := p.Bytes()
			if err != nil || string(b) != string(wire[byte(p.Version())]) {
				return "broken parameters"
			}
			return fmt.Sprintf("params %d", p.Version())
		case "hashOf":
			h := e.ProtocolParametersHash(iotago.Version(a.v))
			return hex.EncodeToString(h[:])
		case "epochFor":
			ep, ok := e.EpochForVersion(iotago.Version(a.v))
			if !ok {
				return "none"
			}
			return fmt.Sprint(uint32(ep))
		case "versionFor":
			return fmt.Sprint(byte(e.VersionForSlot(iotago.SlotIndex(a.slot))))
		case "list":
			s := ""
			for _, x := range e.ProtocolEpochVersions() {
				s += fmt.Sprintf("%d@%d ", x.Version, x.StartEpoch)
			}
			return s
		case "hash":
			h, err := e.VersionsAndProtocolParametersHash()
			if err != nil {
				return "refused"
			}
			return hex.EncodeToString(h[:])
		}
		panic("unknown operation")
	}))
}
