package ledger

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"fmt"
	"regexp"
	"sort"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

// World is a simulated network that keeps a ledger.
type World struct{}

// entry of the totally ordered log that the (stubbed) consensus agrees on.
type entry struct {
	b      []byte
	id     string // announced identifier
	idOK   bool   // the identifier is a block ID
	m      *MV
	what   string
	commit *Commit // this entry closes a slot instead
}

type run struct {
	c       *core.Ctx
	p       *model.Params
	env     stubEnv
	s       *State
	bias    *Bias
	cs      commits
	order   []Commit
	prev    *model.Commitment
	byslot  map[uint32][]byte // only if it is not nil
	full    bool              // check everything on every entry
	rng     *core.RNG
	muts    []mutator
	mutW    []int
	oldSigs []model.Unlock
	oldB    [][]byte
	nodes   []*Node
	log     []*entry
	cut     map[int]bool // nodes cut off from the rest
	slot    uint32
	lossy   int
	dirty   bool
	digest  [32]byte
	must    *Coin
	alone   bool // no nodes, only the model
}

// Plan draws the steps of a run.
func (World) Plan(r *core.RNG, prop, tier string) []core.Op {
	n := r.Range(20, 60)
	if tier == "thorough" {
		n = r.Range(30, 140)
	}
	kinds := []string{"tx", "tick", "jump", "crash", "cut", "heal", "replay", "raw", "block", "unl", "wallet"}
	w := []int{50, 14, 10, 4, 3, 4, 5, 6, 5, 2, 0}
	switch prop {
	case "B01":
		w[8], w[1] = 60, 25
	case "B02":
		w[7], w[8] = 30, 20
	case "B04":
		w[8] = 25
	case "L05":
		w[2], w[9] = 30, 12
	case "L07", "L08", "L09":
		w[2] = 30
	case "L14":
		w[7] = 20
	case "W01":
		w = []int{25, 14, 8, 3, 2, 3, 2, 0, 1, 0, 60}
	case "L15":
		w[3], w[4], w[5], w[7] = 10, 8, 8, 12
	}
	var ops []core.Op
	for i := 0; i < n; i++ {
		ops = append(ops, core.Op{K: kinds[r.Weighted(w...)], S: r.U64()})
	}
	return ops
}

// Run executes a plan.
func (World) Run(c *core.Ctx) {
	w := &run{c: c, cs: commits{}, cut: map[int]bool{}}
	r := c.Rng
	w.p = GenParams(r)
	if r.Pct(30) {
		w.p.StorageCost = core.Pick(r, []uint64{0, 1, 10})
	}
	w.env = stubEnv{r.U64()}
	w.bias = genBias(r, c.Prop)
	w.full = c.Prop == "L15" || c.Prop == "B03" || c.Prop == "B02" || c.Prop == "B04"
	w.lossy = core.Pick(r, []int{0, 5, 20, 40})
	w.chooseMutators()
	w.s = NewState(w.p)
	w.genesis(r)
	w.rng = r.Fork()
	w.slot = w.p.GenesisSlot
	c.SetNow(w.p.SlotStart(w.slot))
	w.closeSlot(w.slot)
	w.advance(w.slot + uint32(r.Range(0, int(w.p.MaxCA)*2)))
	c.State("kinds", fmt.Sprint(w.bias.Kinds))
	for i, op := range c.Plan.Ops {
		w.rng = core.NewRNG(op.S)
		w.step(i, op.K)
	}
	// faults stop: everybody catches up
	w.lossy = 0
	w.cut = map[int]bool{}
	for _, n := range w.nodes {
		if !n.Up {
			n.boot()
		}
	}
	for round := 0; round < 3; round++ {
		w.sync()
		c.RunUntil(c.Now() + 100e9)
	}
	w.final()
}

func (w *run) commitList() []Commit { return w.order }

func (w *run) step(i int, k string) {
	c, r := w.c, w.rng
	switch k {
	case "tx":
		w.opTx(nil)
	case "tick":
		w.advance(w.slot + uint32(r.Range(1, 3)))
	case "jump":
		w.opJump()
	case "crash":
		if !c.On("crash-restart") {
			return
		}
		n := core.Pick(r, w.nodes)
		if n.Up {
			c.Fault("crash-restart")
			c.Logf("node %d crashes after %d entries", n.ID, n.Disk.Applied)
			n.crash()
			down := int64(r.Range(1, 60)) * 1e9
			c.After(down, func() {
				if !n.Up {
					n.boot()
					c.Logf("node %d restarts at %d", n.ID, n.Disk.Applied)
				}
			})
		}
	case "cut":
		if c.On("partition") {
			c.Fault("partition")
			w.cut[r.Intn(len(w.nodes))] = true
		}
	case "heal":
		w.cut = map[int]bool{}
		w.sync()
	case "replay":
		w.opReplay()
	case "raw":
		w.opRaw()
	case "block":
		w.opBlock()
	case "unl":
		w.opUnlockable()
	case "wallet":
		if w.rng.Pct(10) {
			w.opIssue()
		} else {
			w.opWallet()
		}
	}
	// network time passes
	c.RunUntil(c.Now() + int64(r.Range(1, 400))*1e6)
	if i%4 == 3 {
		w.sync()
	}
}

// genesis puts the initial outputs into the model and all nodes.
func (w *run) genesis(r *core.RNG) {
	p, b := w.p, w.bias
	for i := 0; i < r.Range(2, 3) && !w.alone; i++ {
		w.nodes = append(w.nodes, newNode(i, p, w.env))
	}
	pl := &Planner{P: p, S: w.s, R: r, B: b, Now: p.GenesisSlot, Env: w.env}
	left := p.Supply
	n := 0
	put := func(o *model.Output) {
		var tx model.ID36
		h := model.Blake([]byte("genesis"), le64(w.env.seed), le64(uint64(n)))
		copy(tx[:], h[:])
		tx[32], tx[33], tx[34], tx[35] = byte(p.GenesisSlot), byte(p.GenesisSlot>>8), byte(p.GenesisSlot>>16), byte(p.GenesisSlot>>24)
		id := model.OutID(tx, uint16(n%3))
		n++
		w.s.Add(id, o)
		left -= o.Amount
	}
	share := p.Supply / 200
	// an account with foundries and its tokens
	for k := 0; k < r.Range(4, 14); k++ {
		var o *model.Output
		switch r.Weighted(30, 20, 10, 10, 8, 8) {
		case 0:
			o = &model.Output{Kind: model.OutBasic, UCs: pl.ucs(model.OutBasic, nil)}
		case 1:
			o = &model.Output{Kind: model.OutAccount, UCs: []model.UC{{Type: model.UCAddress, Addr: pl.addrFor(model.ACapAccount, model.ACapMana)}}}
			copy(o.ID[:], r.Bytes(32))
			if r.Pct(b.IssuerFeat) {
				o.Feats = addFeat(o.Feats, model.Feat{Type: model.FBlockIssuer, Expiry: p.GenesisSlot + uint32(r.Intn(60)), Keys: pl.keys()})
				if r.Pct(b.Staking) {
					e := uint32(r.Intn(2))
					o.Feats = addFeat(o.Feats, model.Feat{Type: model.FStaking, Staked: r.U64n(share / 4), FixedCost: r.U64n(1000), Start: e, End: e + uint32(r.Intn(6))})
				}
			}
		case 2:
			o = &model.Output{Kind: model.OutAnchor, StateIndex: uint32(r.Intn(3)), UCs: []model.UC{
				{Type: model.UCStateCtrl, Addr: pl.addrFor(model.ACapAnchor, model.ACapMana)}, {Type: model.UCGovernor, Addr: pl.addrFor(model.ACapAnchor, model.ACapMana)}}}
			copy(o.ID[:], r.Bytes(32))
		case 3:
			o = &model.Output{Kind: model.OutNFT, UCs: pl.ucs(model.OutNFT, nil)}
			copy(o.ID[:], r.Bytes(32))
		case 4:
			o = &model.Output{Kind: model.OutDelegation, Validator: &model.Addr{Kind: model.AddrAccount, ID: r.Hash()}, Start: uint32(r.Intn(3)), End: 0,
				UCs: []model.UC{{Type: model.UCAddress, Addr: pl.addrFor(model.ACapDelegation)}}}
			copy(o.ID[:], r.Bytes(32))
			if r.Pct(30) {
				o.End = o.Start + uint32(r.Intn(3))
			}
		case 5:
			o = &model.Output{Kind: model.OutBasic, UCs: []model.UC{{Type: model.UCAddress, Addr: &model.Addr{Kind: model.AddrImplicit, ID: allKeys[r.Intn(b.Keys)].Addr}}}}
		}
		if o.Kind == model.OutBasic && !o.IsImplicit() || o.Kind == model.OutNFT {
			pl.editFeats(o)
			o.Feats = delFeat(o.Feats, model.FSender)
		}
		m := pl.minAmount(o)
		if m > left/20 {
			continue
		}
		o.Amount = m
		if !r.Pct(b.Exact / 3) {
			o.Amount += r.U64n(share)
		}
		if o.Kind == model.OutDelegation {
			o.Delegated = o.Amount
		} else if capAll(o, model.ACapMana) || o.Kind == model.OutAccount {
			o.Mana = r.U64n(1 << uint(r.Range(1, int(p.ManaBits)-2)))
		}
		if o.IsImplicit() && r.Bool() {
			o.Mana = 0
		}
		put(o)
	}
	// plain coins with the rest
	parts := r.Range(3, 8)
	for k := 0; k < parts; k++ {
		o := &model.Output{Kind: model.OutBasic, UCs: []model.UC{{Type: model.UCAddress, Addr: edAddr(allKeys[r.Intn(b.Keys)])}}}
		o.Amount = left / uint64(parts-k)
		if k < parts-1 && r.Bool() {
			o.Amount = o.Amount/2 + 1
		}
		if k == parts-1 {
			o.Amount = left
		}
		if r.Pct(70) {
			o.Mana = r.U64n(1 << uint(r.Range(1, int(p.ManaBits)-2)))
		}
		if w.env.rich() && r.Pct(80) {
			o.Mana = p.MaxMana() - r.U64n(1<<uint(r.Range(1, 40)))
		}
		put(o)
	}
	for _, c := range w.s.List() {
		for _, nd := range w.nodes {
			nd.Disk.Outputs[c.ID] = c.B
		}
	}
	w.dirty = true
}

// closeSlot appends the commitment of a slot to the log.
func (w *run) closeSlot(slot uint32) {
	if w.dirty {
		m := map[model.OutputID][]byte{}
		for id, c := range w.s.Coins {
			m[id] = c.B
		}
		w.digest = digestOf(m)
		w.dirty = false
	}
	mc := &model.Commitment{Version: w.p.Version, Slot: slot, Roots: modelRoots(w.digest), RMC: w.p.MinRMC}
	if w.prev != nil {
		mc.Prev = model.CommitmentID(w.prev)
		mc.Weight = w.prev.Weight + 1
	} else {
		mc.Weight = 1
	}
	w.prev = mc
	if w.byslot != nil {
		w.byslot[slot] = model.EncCommitment(mc)
	}
	cm := Commit{slot, model.CommitmentID(mc)}
	w.cs[slot] = cm
	w.order = append(w.order, cm)
	w.publish(&entry{commit: &cm, what: "commit"})
}

// advance moves the clock to (somewhere in) a slot.
func (w *run) advance(slot uint32) {
	if slot <= w.slot && slot != w.p.GenesisSlot || slot > w.p.GenesisSlot+1<<27 {
		return
	}
	limit := int64(9_000_000_000e9) // stay inside the range of 64 bit nanoseconds
	if w.p.SlotStart(slot) > limit || (int64(slot)-int64(w.p.GenesisSlot))*int64(w.p.SlotDuration) > 7_000_000_000 {
		return
	}
	w.slot = slot
	if slot >= w.p.GenesisSlot+w.p.MinCA {
		to := slot - w.p.MinCA
		from := w.order[len(w.order)-1].Slot + 1
		if to >= from {
			if to-from > w.p.MaxCA+1 {
				from = to - w.p.MaxCA - 1
			}
			skip := w.rng.Pct(30)
			for s := from; s <= to; s++ {
				if s == to || !skip || w.rng.Bool() {
					w.closeSlot(s)
				}
			}
		}
	}
	if t := w.p.SlotStart(slot); t > w.c.Now() {
		w.c.RunUntil(t)
	}
}

// publish appends an entry to the agreed log and announces it to all nodes.
func (w *run) publish(e *entry) {
	w.log = append(w.log, e)
	idx := len(w.log) - 1
	for _, n := range w.nodes {
		w.send(n, idx)
	}
}

// send transmits a log entry to a node over the faulty network.
func (w *run) send(n *Node, idx int) {
	c, r := w.c, w.rng
	e := w.log[idx]
	if e.commit != nil {
		// the agreement on a slot's end is not a message that can be damaged
		c.After(int64(r.Range(1, 50))*1e6, func() { w.arrive(n, idx, nil) })
		return
	}
	if w.cut[n.ID] {
		c.Count("net-cut")
		return
	}
	if r.Pct(w.lossy) && c.On("loss") {
		c.Fault("loss")
		return
	}
	copies := 1
	if r.Pct(w.lossy/2) && c.On("duplicate") {
		c.Fault("duplicate")
		copies = 2
	}
	for i := 0; i < copies; i++ {
		b := e.b
		delay := int64(r.Range(1, 20)) * 1e6
		if r.Pct(w.lossy) && c.On("delay") {
			c.Fault("delay")
			delay = int64(r.Range(1, 4000)) * 1e6
		}
		if r.Pct(w.lossy/3) && c.On("corrupt") {
			b = damage(r, b)
			if !bytes.Equal(b, e.b) {
				c.Fault("corrupt")
			}
		}
		c.After(delay, func() { w.arrive(n, idx, b) })
	}
}

// damage alters bytes in transit.
func damage(r *core.RNG, b []byte) []byte {
	b = append([]byte(nil), b...)
	if len(b) == 0 {
		return b
	}
	switch r.Intn(6) {
	case 0:
		return b[:r.Intn(len(b))]
	case 1:
		return append(b, r.Bytes(r.Range(1, 9))...)
	case 2:
		i, j := r.Intn(len(b)), r.Intn(len(b))
		b[i], b[j] = b[j], b[i]
	case 3:
		i := r.Intn(len(b))
		n := min(r.Range(1, 8), len(b)-i)
		copy(b[i:], r.Bytes(n))
	default:
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
	}
	return b
}

// arrive is the reception of a message by a node.
func (w *run) arrive(n *Node, idx int, b []byte) {
	c := w.c
	if !n.Up || idx < n.Disk.Applied {
		return
	}
	if _, ok := n.inbox[idx]; ok {
		return
	}
	e := w.log[idx]
	defer func(old *core.RNG) { w.rng = old }(w.rng)
	w.rng = core.NewRNG(core.Mix(c.Plan.Seed, 77, uint64(n.ID), uint64(idx)))
	if e.commit == nil {
		if !bytes.Equal(b, e.b) {
			w.damaged(n, e, b)
			return
		}
		if w.c.Prop == "L15" || w.rng.Pct(6) {
			if idx > n.Disk.Applied {
				// look at it before its turn
				v := n.judge(b)
				n.spec[idx] = v
				if v.Panic != "" {
					w.compare(n, v, e.m, e.what+" (early)")
				}
				c.Count("early-validation")
			}
		}
	}
	n.inbox[idx] = b
	for {
		b, ok := n.inbox[n.Disk.Applied]
		if !ok {
			return
		}
		delete(n.inbox, n.Disk.Applied)
		w.apply(n, n.Disk.Applied, b)
	}
}

// damaged bytes arrived: whoever checks the identifier must notice.
func (w *run) damaged(n *Node, e *entry, b []byte) {
	c := w.c
	c.Evals++
	c.Count("damaged-received")
	var id string
	var re []byte
	site := ""
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				site = core.PanicSite()
				ok = false
			}
		}()
		blk, used, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(n.API))(b)
		if err != nil || used != len(b) {
			return false
		}
		bid, err := blk.ID()
		if err != nil {
			return false
		}
		id = string(bid[:])
		if re, err = n.API.Encode(blk); err != nil {
			re = nil
		}
		return true
	}()
	if site != "" {
		c.FailFor([]string{"L15", "B03", "L14"}, "panic:"+site, "node %d panicked on damaged bytes of %s", n.ID, e.what)
	}
	if !ok {
		return
	}
	c.Count("damaged-decodes")
	if e.idOK && id == e.id {
		c.FailFor([]string{"B02"}, "damage-unnoticed", "%s: bytes altered in transit keep the block ID %x: %s", e.what, id[:4], diffAt(e.b, b))
	}
	if !bytes.Equal(re, b) {
		c.FailFor([]string{"B03", "B02"}, "damage-noncanonical", "%s: damaged bytes decode but re-encode differently: %s", e.what, diffAt(re, b))
	}
}

func diffAt(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("byte %d: %02x or %02x", i, a[i], b[i])
		}
	}
	return fmt.Sprintf("lengths %d and %d", len(a), len(b))
}

// apply processes the next entry of the log at a node.
func (w *run) apply(n *Node, idx int, b []byte) {
	c := w.c
	e := w.log[idx]
	if e.commit != nil {
		id, err := n.closeSlot(e.commit.Slot)
		if err != nil {
			c.FailFor([]string{"L15", "B03"}, "commit", "node %d can not commit slot %d: %v", n.ID, e.commit.Slot, err)
		}
		c.Evals++
		if model.ID36(id) != e.commit.ID {
			c.FailFor([]string{"L15", "B02"}, "commitment-differs", "node %d commits slot %d as %x, others as %x", n.ID, e.commit.Slot, id[:], e.commit.ID[:])
		}
		n.Disk.Applied++
		return
	}
	v := n.judge(b)
	if w.c.Keep {
		c.Logf("node %d entry %d %s: %s | %s", n.ID, idx, e.what, v.Short(), e.m.Short())
	}
	w.compare(n, v, e.m, e.what)
	if v.Tx != nil && len(v.Res.InputSet) > 0 && (c.Prop == "L15" || w.rng.Pct(15)) {
		w.again(n, idx, v)
	}
	if v.Stage == "ok" {
		if err := n.apply(v); err != nil {
			c.FailFor([]string{"L15", "B03"}, "apply", "node %d can not store the outputs of an accepted transaction: %v", n.ID, err)
		}
	}
	n.Disk.Applied++
	delete(n.spec, idx)
}

// again validates once more and looks for side effects.
func (w *run) again(n *Node, idx int, v *Verdict) {
	c := w.c
	c.Evals++
	c.Count("revalidated")
	enc := func() string {
		h := ""
		b, err := n.API.Encode(v.Block)
		if err != nil {
			return err.Error()
		}
		h = string(b)
		var ids []iotago.OutputID
		for id := range v.Res.InputSet {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
		for _, id := range ids {
			b, err := n.API.Encode(v.Res.InputSet[id])
			if err != nil {
				return err.Error()
			}
			h += string(b)
		}
		var ks []string
		for k, x := range v.Res.BlockIssuanceCreditInputSet {
			ks = append(ks, fmt.Sprintf("%x=%d;", k[:], x))
		}
		for k, x := range v.Res.RewardsInputSet {
			ks = append(ks, fmt.Sprintf("%v=%d;", k, x))
		}
		sort.Strings(ks)
		for _, k := range ks {
			h += k
		}
		return h
	}
	before := enc()
	x := n.rerun(v)
	if after := enc(); before != after {
		c.FailFor([]string{"L15"}, "side-effect", "validating entry %d changed what it was given", idx)
	}
	if x.Stage != v.Stage || x.Panic != v.Panic {
		c.FailFor([]string{"L15"}, "not-deterministic", "entry %d: first %s, again %s", idx, v.Short(), x.Short())
	}
	// A node that looked early and saw the same inputs must have said the same.
	s := n.spec[idx]
	if s != nil && s.Tx != nil && s.Stage != "missing" && s.Stage != "stub" && s.Stage != "storage" && s.Stage != v.Stage {
		c.FailFor([]string{"L15"}, "early-differs", "entry %d: early %s, in order %s", idx, s.Short(), v.Short())
	}
	// stored objects are the ones that were decoded from disk
	ids := make([]model.OutputID, 0, len(v.Res.InputSet))
	for id := range v.Res.InputSet {
		ids = append(ids, model.OutputID(id))
	}
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
	for _, id := range ids {
		b, err := n.API.Encode(v.Res.InputSet[iotago.OutputID(id)])
		if err != nil || !bytes.Equal(b, n.Disk.Outputs[id]) {
			c.FailFor([]string{"L15", "B03"}, "stored-output-changed", "output %x differs from what was stored", id[:4])
		}
	}
}

func errText(e error) string {
	if e == nil {
		return ""
	}
	// addresses in memory are not part of what happened
	return pointers.ReplaceAllString(e.Error(), "0x-")
}

var pointers = regexp.MustCompile("0x[0-9a-f]{8,}")

// sync lets nodes ask for what they miss.
func (w *run) sync() {
	for _, n := range w.nodes {
		if !n.Up || w.cut[n.ID] {
			continue
		}
		for i := n.Disk.Applied; i < len(w.log); i++ {
			if _, ok := n.inbox[i]; !ok {
				w.send(n, i)
			}
		}
	}
}

// append judges a block with the model and publishes it.
func (w *run) append(b []byte, what string) *MV {
	c := w.c
	m := modelJudge(w.p, w.s, w.cs, w.env, b)
	e := &entry{b: b, m: m, what: what}
	if m.Block != nil && m.Stage != "decode" {
		id := w.p.BlockID(m.Block)
		e.id, e.idOK = string(id[:]), true
	}
	c.Count("entries")
	c.Count("stage." + m.Stage)
	if m.Stage == "ok" {
		bad, props := w.s.Apply(m.Block.Tx.Tx)
		if bad != "" {
			// the model's own rules allow something its invariants forbid: the model is wrong
			panic("model: " + bad + fmt.Sprint(props))
		}
		if bad, _ := w.s.Invariants(); bad != "" {
			panic("model: " + bad + " after " + what)
		}
		w.dirty = true
		for i := range m.Block.Tx.Unlocks {
			if m.Block.Tx.Unlocks[i].Type == model.UnlSignature {
				w.oldSigs = append(w.oldSigs, m.Block.Tx.Unlocks[i])
			}
		}
		if len(w.oldSigs) > 40 {
			w.oldSigs = w.oldSigs[len(w.oldSigs)-40:]
		}
		w.shape(m)
	} else if len(m.Viols) == 1 {
		c.Count("rule." + m.Viols[0].Rule)
		c.State("rule", m.Viols[0].Rule)
	}
	w.oldB = append(w.oldB, b)
	if len(w.oldB) > 60 {
		w.oldB = w.oldB[1:]
	}
	if c.Keep {
		c.Logf("entry %d %s: %s %s", len(w.log), what, m.Short(), hex.EncodeToString(b))
	} else {
		c.Logf("entry %d %s: %s %016x", len(w.log), what, m.Short(), core.HashStr(string(b)))
	}
	if len(c.Samples) < 2 && m.Stage == "ok" {
		c.Sample(what + ": " + describe(m))
	}
	w.publish(e)
	return m
}

func describe(m *MV) string {
	s := ""
	for _, c := range m.Coins {
		s += fmt.Sprintf(" in:%s", outShape(c.O))
	}
	for _, o := range m.Block.Tx.Tx.Outputs {
		s += fmt.Sprintf(" out:%s", outShape(o))
	}
	return s
}

func outShape(o *model.Output) string {
	s := fmt.Sprintf("k%d", o.Kind)
	for _, u := range o.UCs {
		s += fmt.Sprintf("u%d", u.Type)
		if u.Addr != nil {
			s += fmt.Sprintf("a%d", u.Addr.Kind)
		}
	}
	for _, f := range o.Feats {
		s += fmt.Sprintf("f%d", f.Type)
	}
	return s
}

// shape records which kind of transition was accepted.
func (w *run) shape(m *MV) {
	var a, b []string
	for _, c := range m.Coins {
		a = append(a, outShape(c.O))
	}
	for _, o := range m.Block.Tx.Tx.Outputs {
		b = append(b, outShape(o))
	}
	sort.Strings(a)
	sort.Strings(b)
	w.c.State("tx", fmt.Sprint(a, b, m.Block.Tx.Tx.Caps))
}

// final compares all nodes with the model once faults have stopped.
func (w *run) final() {
	c := w.c
	want := map[model.OutputID][]byte{}
	for id, x := range w.s.Coins {
		want[id] = x.B
	}
	d := digestOf(want)
	for _, n := range w.nodes {
		c.Evals++
		if n.Disk.Applied != len(w.log) {
			// Not a property of the code under test: the harness lost a message.
			panic(fmt.Sprintf("node %d applied %d of %d entries", n.ID, n.Disk.Applied, len(w.log)))
		}
		if digestOf(n.Disk.Outputs) != d {
			c.FailFor([]string{"L15", "B03"}, "ledger-differs", "node %d ends with another ledger", n.ID)
		}
		hi, lo, err := n.supply()
		if err != nil {
			c.FailFor([]string{"B03", "L15"}, "stored", "node %d can not read its ledger: %v", n.ID, err)
		}
		if hi != 0 || lo != w.p.Supply {
			c.FailFor([]string{"L01"}, "supply", "node %d holds %d base tokens, supply %d", n.ID, lo, w.p.Supply)
		}
	}
	c.Add("coins", int64(len(w.s.Coins)))
	c.Logf("end: %d entries, %d coins, %x", len(w.log), len(w.s.Coins), d[:4])
}

// pickCommit chooses a commitment for the transaction of a client at a slot.
func (w *run) pickCommit(slot uint32) *Commit {
	var ok []Commit
	for _, c := range w.order {
		if c.Slot+w.p.MaxCA >= slot && (c.Slot+w.p.MinCA <= slot || c.Slot <= w.p.GenesisSlot) && c.Slot <= slot {
			ok = append(ok, c)
		}
	}
	if len(ok) == 0 || w.rng.Pct(w.bias.NoCommit) {
		return nil
	}
	c := core.Pick(w.rng, ok)
	return &c
}

// wrap puts a transaction into a signed block.
func (w *run) wrap(t *model.SignedTx, slot uint32) *model.Block {
	b := w.blockAt(slot)
	if t != nil {
		b.PayloadKind, b.Tx = model.PayloadTx, t
		if ci := t.Tx.Commitment(); ci != nil && model.SlotOf(b.Commitment) < model.SlotOf(ci.Commit) {
			b.Commitment = ci.Commit
		}
	}
	w.sign(b)
	return b
}

func (w *run) sign(b *model.Block) {
	k := core.Pick(w.rng, allKeys)
	b.Pub = k.Pub
	copy(b.Sig[:], ed25519.Sign(k.Priv, model.BlockSigningMessage(b)))
}

// blockAt makes an unsigned block without payload that is valid in a slot, if there is one.
func (w *run) blockAt(slot uint32) *model.Block {
	r, p := w.rng, w.p
	b := &model.Block{Version: p.Version, NetworkID: p.NetworkID(), PayloadKind: -1, Issuer: r.Hash(), MaxBurned: r.U64() >> uint(r.Intn(64))}
	off := r.U64n(uint64(p.SlotDuration) * 1e9)
	switch r.Intn(6) {
	case 0:
		off = 0
	case 1:
		off = uint64(p.SlotDuration)*1e9 - 1
	}
	if slot <= p.GenesisSlot {
		off = 0
	}
	b.IssuingTime = uint64(p.SlotStart(slot)) + off
	var ok []Commit
	for _, c := range w.order {
		if c.Slot+p.MaxCA >= slot && (c.Slot+p.MinCA <= slot || c.Slot <= p.GenesisSlot) && c.Slot <= slot {
			ok = append(ok, c)
		}
	}
	if len(ok) > 0 {
		b.Commitment = core.Pick(r, ok).ID
	} else {
		b.Commitment = w.order[0].ID
	}
	b.Finalized = r.U32() % (slot + 1)
	seen := map[model.ID36]bool{}
	ids := func(n int) (ids []model.ID36) {
		for len(ids) < n {
			var x model.ID36
			copy(x[:], r.Bytes(36))
			if r.Pct(30) {
				// similar IDs
				x = model.ID36{}
				x[r.Intn(36)] = byte(r.Intn(4))
				x[35] = byte(r.Intn(256))
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			ids = append(ids, x)
		}
		sortIDs(ids)
		return
	}
	b.Strong = ids(r.Range(1, 8))
	b.Weak = ids(r.Intn(9) * r.Intn(2))
	b.Shallow = ids(r.Intn(9) * r.Intn(2))
	return b
}

func sortIDs(ids []model.ID36) {
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
}

// skewed is the slot a client's clock shows.
func (w *run) skewed() uint32 {
	s := w.slot
	if w.rng.Pct(15) && w.c.On("clock-skew") {
		w.c.Fault("clock-skew")
		d := uint32(w.rng.Range(1, int(w.p.MaxCA)+1))
		if w.rng.Bool() {
			s += d
		} else if s >= w.p.GenesisSlot+d {
			s -= d
		}
	}
	return s
}

// opTx is a client making a transaction, preceded by byzantine variants of it.
func (w *run) opTx(must *Coin) *MV {
	c, r := w.c, w.rng
	slot := w.skewed()
	var d *Draft
	var pl *Planner
	for try := 0; try < 6 && d == nil; try++ {
		pl = &Planner{P: w.p, S: w.s, R: r, B: w.bias, Now: slot, C: w.pickCommit(slot), Env: w.env, must: must}
		d = pl.Plan()
	}
	if d == nil {
		c.Count("no-plan")
		return nil
	}
	if r.Pct(w.bias.Mutate) && c.On("byzantine-client") {
		for k := 0; k < r.Range(1, w.bias.MutPerTx); k++ {
			x, name := w.mutate(pl, d)
			if x == nil {
				continue
			}
			c.Fault("byzantine-client")
			c.Count("mut." + name)
			blk := w.wrap(x.Signed(), slot)
			m := w.append(model.EncBlock(blk), "mut:"+name)
			if m.Stage == "ok" {
				c.Count("mut-ok")
				return m // it may have spent the same coins
			}
		}
	}
	blk := w.wrap(d.Signed(), slot)
	m := w.append(model.EncBlock(blk), "tx")
	c.Count("honest." + m.Stage)
	if !m.OK() {
		c.Count("honest-why." + m.Viols.String() + m.Why)
	}
	return m
}

// opJump moves the clock to just before, at or after something about a coin ends, then spends it.
func (w *run) opJump() {
	c, r, p := w.c, w.rng, w.p
	type tgt struct {
		coin *Coin
		slot uint32
	}
	var ts []tgt
	for _, x := range w.s.List() {
		o := x.O
		add := func(s uint32) {
			if s < 1<<31 {
				ts = append(ts, tgt{x, s})
			}
		}
		if u := o.UC(model.UCTimelock); u != nil {
			add(u.Slot)
		}
		if u := o.UC(model.UCExpiration); u != nil {
			add(u.Slot)
			if u.Slot > p.MaxCA {
				add(u.Slot - p.MaxCA + p.MinCA)
			}
		}
		if f := o.Feat(model.FBlockIssuer); f != nil {
			add(f.Expiry + p.MinCA)
		}
		if f := o.Feat(model.FStaking); f != nil && f.End < 1<<20 {
			add(p.EpochStart(f.End + 1))
		}
		if o.Kind == model.OutDelegation {
			e := o.Start
			if o.End != 0 {
				e = o.End
			}
			if e < 1<<20 {
				add(p.EpochStart(e))
				add(p.EpochStart(e+1) - p.EpochNearing)
			}
		}
	}
	c.Fault("clock-jump")
	if len(ts) == 0 || r.Pct(20) {
		w.advance(w.slot + uint32(r.Intn(1<<uint(r.Range(1, 16)))))
		return
	}
	t := core.Pick(r, ts)
	s := int64(t.slot) + int64(r.Range(-2, 2))
	if s > int64(w.slot) && s < int64(w.slot)+1<<18 {
		w.advance(uint32(s))
	}
	w.opTx(t.coin)
}

// opReplay sends something old again.
func (w *run) opReplay() {
	c, r := w.c, w.rng
	if len(w.oldB) == 0 || !c.On("replay") {
		return
	}
	c.Fault("replay")
	b := core.Pick(r, w.oldB)
	if r.Bool() {
		w.append(b, "replay-block")
		return
	}
	blk, used, err := model.DecBlock(b)
	if err != nil || used != len(b) || blk.PayloadKind != model.PayloadTx {
		return
	}
	n := w.wrap(blk.Tx, w.slot)
	w.append(model.EncBlock(n), "replay-tx")
}

// opRaw sends damaged or hostile bytes.
func (w *run) opRaw() {
	c, r := w.c, w.rng
	if len(w.oldB) == 0 || !c.On("hostile-bytes") {
		return
	}
	c.Fault("hostile-bytes")
	for k := 0; k < r.Range(1, 5); k++ {
		b := core.Pick(r, w.oldB)
		x := damage(r, b)
		for r.Pct(20) {
			x = damage(r, x)
		}
		// spots where hostile values hurt: lengths, counts, types
		if len(x) > 0 && r.Pct(30) {
			x[r.Intn(len(x))] = core.Pick(r, []byte{0, 1, 2, 4, 8, 127, 128, 255})
		}
		blk, used, err := model.DecBlock(x)
		if err == nil && used == len(x) && r.Pct(70) {
			w.sign(blk)
			x = model.EncBlock(blk)
		}
		w.append(x, "raw")
	}
}

// opUnlockable compares the helper that tells who can unlock an output with the rules.
func (w *run) opUnlockable() {
	c, r, p := w.c, w.rng, w.p
	coins := w.s.List()
	for k := 0; k < 6; k++ {
		coin := core.Pick(r, coins)
		o := coin.O
		var marks []uint32
		for _, u := range o.UCs {
			if u.Type == model.UCTimelock || u.Type == model.UCExpiration {
				marks = append(marks, u.Slot)
			}
		}
		if len(marks) == 0 && r.Pct(70) {
			continue
		}
		cs := w.slot
		if len(marks) > 0 {
			m := core.Pick(r, marks)
			cs = m - p.MinCA
			if r.Bool() {
				cs = m - p.MaxCA
			}
			cs += uint32(r.Range(-1, 1))
			if cs > 1<<31 {
				continue
			}
		}
		var real iotago.TxEssenceOutput
		if _, err := w.nodes[0].realAPI().Decode(coin.B, &real); err != nil {
			c.FailFor([]string{"B03"}, "decode", "output does not decode: %v", err)
		}
		future, past := cs+p.MinCA, cs+p.MaxCA
		locked := false
		var owner, ret *model.Addr
		expSlot := uint32(0)
		switch o.Kind {
		case model.OutAnchor:
			continue
		case model.OutFoundry:
			owner = o.UC(model.UCImmAccount).Addr
		default:
			owner = o.UC(model.UCAddress).Addr
		}
		if u := o.UC(model.UCTimelock); u != nil && future < u.Slot {
			locked = true
		}
		if u := o.UC(model.UCExpiration); u != nil {
			ret, expSlot = u.Addr, u.Slot
		}
		cand := []*model.Addr{owner, edAddr(core.Pick(r, allKeys))}
		if ret != nil {
			cand = append(cand, ret)
		}
		for _, a := range cand {
			ra, err := realAddr(w.nodes[0].realAPI(), a)
			if err != nil {
				c.FailFor([]string{"B03"}, "decode", "address does not decode: %v", err)
			}
			eff := owner
			if ret != nil {
				switch {
				case future >= expSlot:
					eff = ret
				case past >= expSlot:
					eff = nil
				}
			}
			want := !locked && eff != nil && eff.Equal(a)
			got := false
			switch x := real.(type) {
			case iotago.OwnerTransitionIndependentOutput:
				got = x.UnlockableBy(ra, iotago.SlotIndex(past), iotago.SlotIndex(future))
			}
			c.Evals++
			c.Count("unlockable-by")
			if got != want {
				c.FailFor([]string{"L05"}, "unlockable-by", "output with %s at past bound %d, future bound %d: helper says %v for %s, the rules say %v", outShape(o), past, future, got, ra.String(), want)
			}
		}
	}
}

func (n *Node) realAPI() iotago.API {
	if n.API != nil {
		return n.API
	}
	return RealAPI(n.P)
}

func realAddr(api iotago.API, a *model.Addr) (iotago.Address, error) {
	var x iotago.Address
	_, err := api.Decode(model.EncAddr(a), &x)
	return x, err
}

// opBlock issues blocks with all kinds of payloads, and byzantine variants of them.
func (w *run) opBlock() {
	c, r, p := w.c, w.rng, w.p
	for k := 0; k < r.Range(1, 4); k++ {
		slot := w.skewed()
		b := w.blockAt(slot)
		what := "block-none"
		switch r.Weighted(20, 25, 15, 25, 15) {
		case 1:
			what = "block-tagged"
			b.PayloadKind, b.Tagged = model.PayloadTagged, &model.Tagged{Tag: r.Bytes(r.Intn(65)), Data: r.Bytes(r.Intn(200))}
			if r.Pct(5) {
				b.Tagged.Data = r.Bytes(8192 - r.Intn(3))
			}
			if r.Pct(5) {
				b.Tagged.Data = r.Bytes(r.Range(31000, 34000))
			}
		case 2:
			what = "block-candidacy"
			b.PayloadKind = model.PayloadCandidacy
		case 3:
			what = "block-validation"
			b.BodyType, b.HighestVersion, b.ParamsHash, b.MaxBurned = model.BodyValidation, p.Version+byte(r.Intn(3)), r.Hash(), 0
			if r.Pct(30) {
				seen := map[model.ID36]bool{}
				for _, l := range [][]model.ID36{b.Strong, b.Weak, b.Shallow} {
					for _, x := range l {
						seen[x] = true
					}
				}
				for _, l := range []*[]model.ID36{&b.Strong, &b.Weak, &b.Shallow} {
					for n := r.Intn(51); len(*l) < n; {
						var x model.ID36
						copy(x[:], r.Bytes(36))
						if !seen[x] {
							*l = append(*l, x)
							seen[x] = true
						}
					}
					sortIDs(*l)
				}
			}
		case 4:
			what = "block-tx"
			pl := &Planner{P: p, S: w.s, R: r, B: w.bias, Now: slot, C: w.pickCommit(slot), Env: w.env}
			if d := pl.Plan(); d != nil {
				b.PayloadKind, b.Tx = model.PayloadTx, d.Signed()
				if ci := d.Tx.Commitment(); ci != nil && model.SlotOf(b.Commitment) < model.SlotOf(ci.Commit) {
					b.Commitment = ci.Commit
				}
				if r.Pct(map[bool]int{true: 30, false: 5}[c.Prop == "B01" || c.Prop == "L14" || c.Prop == "B04"]) {
					if size := 32768 + r.Range(-1, 2); w.pad(pl, b, size) {
						what = "block-tx-large"
						c.Count("large-block")
						if size > 32768 {
							c.Count("oversized-block")
						}
					}
				}
			}
		}
		if r.Pct(65) && c.On("byzantine-block") {
			if n := w.mutBlock(b, slot); n != "" {
				what += ":" + n
				c.Fault("byzantine-block")
				c.Count("blockmut." + n)
			}
		}
		w.sign(b)
		if r.Pct(8) && c.On("byzantine-block") {
			switch r.Intn(4) {
			case 0:
				b.Sig[r.Intn(64)] ^= 1 << uint(r.Intn(8))
			case 1:
				b.Pub = core.Pick(r, allKeys).Pub
			case 2:
				b.IssuingTime++
			case 3:
				b.Finalized++
			}
			what += ":after-signing"
			c.Fault("byzantine-block")
		}
		m := w.append(model.EncBlock(b), what)
		c.State("block", what, m.Stage, m.Viols.String())
	}
}

// pad fills the transaction of a block with metadata until the block has the given size.
func (w *run) pad(pl *Planner, b *model.Block, size int) bool {
	r := w.rng
	os := b.Tx.Tx.Outputs
	for i := 0; i < 64; i++ {
		left := size - len(model.EncBlock(b))
		if left == 0 {
			return true
		}
		if left < 80 || len(os) >= 120 {
			return false
		}
		// one more output with metadata; what it costs besides its content is known once it is there
		o := &model.Output{Kind: model.OutBasic, UCs: []model.UC{{Type: model.UCAddress, Addr: edAddr(core.Pick(r, allKeys))}},
			Feats: []model.Feat{{Type: model.FMetadata, Entries: []model.Entry{{Key: "pad"}}}}}
		os = append(os, o)
		b.Tx.Tx.Outputs = os
		left = size - len(model.EncBlock(b))
		switch {
		case left < 0:
			return false
		case left > 8100+200:
			left = 8100 - r.Intn(3000)
		case left > 8100:
			left -= 200
		}
		o.Feats[0].Entries[0].Value = r.Bytes(left)
		o.Amount = pl.minAmount(o)
	}
	return false
}

// mutBlock breaks (or stretches) a rule about blocks.
func (w *run) mutBlock(b *model.Block, slot uint32) string {
	r, p := w.rng, w.p
	setSlot := func(s uint32) bool {
		if s < p.GenesisSlot || (int64(s)-int64(p.GenesisSlot))*int64(p.SlotDuration) > 7_000_000_000 {
			return false
		}
		off := uint64(r.Intn(2)) * (uint64(p.SlotDuration)*1e9 - 1)
		if s == p.GenesisSlot {
			off = 0
		}
		b.IssuingTime = uint64(p.SlotStart(s)) + off
		return true
	}
	switch r.Intn(16) {
	case 0:
		b.Version = core.Pick(r, []byte{0, 1, 2, 4, 255, p.Version + 1})
		return "version"
	case 1:
		b.NetworkID ^= 1 << uint(r.Intn(64))
		return "network"
	case 2:
		if len(b.Weak) == 0 {
			b.Weak = []model.ID36{core.Pick(r, b.Strong)}
		} else {
			b.Weak[r.Intn(len(b.Weak))] = core.Pick(r, b.Strong)
			sortIDs(b.Weak)
		}
		return "weak-strong"
	case 3:
		var x model.ID36
		copy(x[:], r.Bytes(36))
		b.Weak = append(b.Weak, x)
		b.Shallow = append(b.Shallow, x)
		for _, l := range []*[]model.ID36{&b.Weak, &b.Shallow} {
			sortIDs(*l)
			if m := 8; len(*l) > m {
				*l = []model.ID36{x}
			}
		}
		return "weak-shallow"
	case 4:
		// allowed
		b.Shallow = append([]model.ID36(nil), b.Strong[:1]...)
		return "strong-shallow"
	case 5:
		l := core.Pick(r, []*[]model.ID36{&b.Strong, &b.Weak, &b.Shallow})
		if len(*l) < 2 {
			return ""
		}
		i := r.Intn(len(*l) - 1)
		if r.Bool() {
			(*l)[i], (*l)[i+1] = (*l)[i+1], (*l)[i]
			return "parents-order"
		}
		(*l)[i] = (*l)[i+1]
		return "parents-dup"
	case 6:
		l := core.Pick(r, []*[]model.ID36{&b.Strong, &b.Weak, &b.Shallow})
		n := core.Pick(r, []int{0, 1, 8, 9, 50, 51, 255})
		for len(*l) < n {
			var x model.ID36
			copy(x[:], r.Bytes(36))
			*l = append(*l, x)
		}
		*l = (*l)[:n]
		sortIDs(*l)
		return "parents-count"
	case 7:
		// the slot of a block around the bounds of its commitment
		s := model.SlotOf(b.Commitment) + core.Pick(r, []uint32{p.MinCA, p.MaxCA, 0}) + uint32(r.Range(-1, 1))
		if !setSlot(s) {
			return ""
		}
		return "slot-edge"
	case 8:
		cs := w.order
		var near []Commit
		for _, c := range cs {
			d := int64(slot) - int64(c.Slot)
			if d >= int64(p.MaxCA)-1 && d <= int64(p.MaxCA)+2 || d >= int64(p.MinCA)-2 && d <= int64(p.MinCA)+1 {
				near = append(near, c)
			}
		}
		if len(near) == 0 || r.Pct(20) {
			near = cs
		}
		b.Commitment = core.Pick(r, near).ID
		return "commitment"
	case 9:
		// commitment of an unknown or extreme slot
		s := core.Pick(r, []uint32{0, 1, p.GenesisSlot, p.GenesisSlot - 1, p.GenesisSlot + 1, slot, slot - p.MinCA, slot - p.MaxCA, slot - p.MaxCA - 1, slot + 1, ^uint32(0), ^uint32(0) - p.MinCA, ^uint32(0) - p.MaxCA, 1 << 31})
		copy(b.Commitment[:], r.Bytes(32))
		b.Commitment[32], b.Commitment[33], b.Commitment[34], b.Commitment[35] = byte(s), byte(s>>8), byte(s>>16), byte(s>>24)
		return "commitment-slot"
	case 10:
		if b.BodyType != model.BodyValidation {
			return ""
		}
		b.HighestVersion = core.Pick(r, []byte{0, p.Version - 1, p.Version, p.Version + 1, 255})
		return "highest-version"
	case 11, 12:
		if b.PayloadKind != model.PayloadTx {
			return ""
		}
		s := int64(b.Tx.Tx.CreationSlot) + int64(r.Range(-1, 1))
		if s < 0 || !setSlot(uint32(s)) {
			return ""
		}
		return "tx-creation"
	case 13:
		if b.PayloadKind != model.PayloadTx || b.Tx.Tx.Commitment() == nil {
			return ""
		}
		// block commitment around the transaction's commitment
		want := model.SlotOf(b.Tx.Tx.Commitment().Commit)
		for _, i := range []int{r.Intn(len(w.order)), len(w.order) - 1} {
			b.Commitment = w.order[i].ID
			if d := int64(w.order[i].Slot) - int64(want); d >= -1 && d <= 1 {
				break
			}
		}
		return "commitment-input-newer"
	case 14:
		b.IssuingTime = core.Pick(r, []uint64{0, 1, uint64(p.GenesisUnix) * 1e9, uint64(p.GenesisUnix)*1e9 - 1, b.IssuingTime + 1, b.IssuingTime - 1, b.IssuingTime / 2})
		return "time"
	case 15:
		b.Finalized = r.U32()
		return "finalized"
	}
	return ""
}
