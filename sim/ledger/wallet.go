package ledger

import (
	"bytes"
	"crypto/ed25519"
	"errors"
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

// A wallet builds transactions and blocks with the builder package and sends them to the nodes.

// purse is what a transaction may spend, by the rules.
type purse struct {
	stored, potential, reward *big.Int
	free                      *big.Int // not bound to an account
	bound                     map[model.Hash]*big.Int
}

func (w *run) purse(d *Draft, slot uint32) (*purse, bool) {
	z := func() *big.Int { return new(big.Int) }
	p := &purse{z(), z(), z(), z(), map[model.Hash]*big.Int{}}
	for _, c := range d.Coins {
		st, ok := w.p.DecayBySlots(c.O.Mana, c.Slot(), slot)
		po, ok2 := w.p.Potential(c.O, c.Slot(), slot)
		if !ok || !ok2 || c.Slot() > slot {
			return nil, false
		}
		p.stored.Add(p.stored, st)
		p.potential.Add(p.potential, po)
		to := p.free
		if c.O.IsImplicit() || c.O.Kind == model.OutAccount {
			var h model.Hash
			copy(h[:], c.Chain()[1:])
			if p.bound[h] == nil {
				p.bound[h] = z()
			}
			to = p.bound[h]
		}
		to.Add(to, st)
		to.Add(to, po)
	}
	if d.C != nil {
		for _, x := range d.Tx.Ctx {
			if x.Type == model.CtxReward {
				p.reward.Add(p.reward, bigU(w.env.Reward(d.Coins[x.Index].Chain(), d.C.Slot)))
			}
		}
	}
	p.free.Add(p.free, p.reward)
	return p, true
}

func (p *purse) sum() *big.Int {
	return new(big.Int).Add(new(big.Int).Add(p.stored, p.potential), p.reward)
}

// take uses mana for an account (nil: for nobody in particular).
func (p *purse) take(h *model.Hash, x uint64) {
	v := bigU(x)
	if h != nil && p.bound[*h] != nil {
		b := p.bound[*h]
		if b.Cmp(v) >= 0 {
			b.Sub(b, v)
			return
		}
		v.Sub(v, b)
		b.SetInt64(0)
	}
	p.free.Sub(p.free, v)
}

// lockedTo tells for which account an output keeps mana locked.
func (w *run) lockedTo(t *model.Tx, o *model.Output) *model.Hash {
	if o.Kind == model.OutAccount {
		return &o.ID
	}
	a, l := o.UC(model.UCAddress), o.UC(model.UCTimelock)
	if a != nil && l != nil && a.Addr.Kind == model.AddrAccount && l.Slot > t.CreationSlot+2*w.p.MaxCA {
		return &a.Addr.ID
	}
	return nil
}

// spend takes what a transaction gives out.
func (w *run) spend(p *purse, t *model.Tx) bool {
	for _, o := range t.Outputs {
		p.take(w.lockedTo(t, o), o.Mana)
	}
	for i := range t.Allotments {
		p.take(&t.Allotments[i].AccountID, t.Allotments[i].Mana)
	}
	return p.free.Sign() >= 0
}

func addAllotment(t *model.Tx, h model.Hash, x uint64) {
	if x == 0 {
		return
	}
	for i := range t.Allotments {
		if t.Allotments[i].AccountID == h {
			t.Allotments[i].Mana += x
			return
		}
	}
	t.Allotments = append(t.Allotments, model.Allotment{AccountID: h, Mana: x})
	sort.Slice(t.Allotments, func(i, j int) bool {
		return bytes.Compare(t.Allotments[i].AccountID[:], t.Allotments[j].AccountID[:]) < 0
	})
}

// recipe is how a wallet distributes the mana.
type recipe struct {
	kind    int // 0 as planned, 1 allot all, 2 store the rest, 3 allot what is required and store the rest
	idx     int
	account model.Hash
	min     uint64 // 1: required at least
	rmc     uint64
}

// expect says what a recipe makes of a transaction, or why it is impossible.
func (w *run) expect(d *Draft, rc *recipe, slot uint32) (*Draft, string) {
	d = d.Clone()
	t := d.Tx
	if rc.kind == 0 {
		return d, ""
	}
	p, ok := w.purse(d, t.CreationSlot)
	if !ok {
		return nil, "mana-arithmetic"
	}
	if p.sum().BitLen() > 64 {
		return nil, "mana-overflow"
	}
	var store *model.Output
	var keep *model.Hash
	if rc.kind > 1 {
		if rc.idx >= len(t.Outputs) {
			return nil, "no-such-output"
		}
		store = t.Outputs[rc.idx]
		if store.Kind == model.OutFoundry || store.Kind == model.OutDelegation {
			return nil, "stores-no-mana"
		}
		if keep = w.lockedTo(t, store); keep != nil && *keep == (model.Hash{}) {
			keep = nil
		}
	}
	if !w.spend(p, t) {
		return nil, "too-little-mana"
	}
	got := uint64(0)
	var hs []model.Hash
	for h := range p.bound {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return bytes.Compare(hs[i][:], hs[j][:]) < 0 })
	for _, h := range hs {
		if keep != nil && h == *keep {
			continue
		}
		x := p.bound[h].Uint64()
		p.bound[h].SetInt64(0)
		addAllotment(t, h, x)
		if h == rc.account {
			got += x
		}
	}
	switch rc.kind {
	case 1:
		x := p.free.Uint64()
		addAllotment(t, rc.account, x)
		got += x
		if got < rc.min {
			return nil, "too-little-mana"
		}
		return d, ""
	case 3:
		cost, ok := w.cost(d, rc, slot)
		if !ok {
			return nil, "cost-overflow"
		}
		if cost > got {
			addAllotment(t, rc.account, cost-got)
			p.take(&rc.account, cost-got)
			if p.free.Sign() < 0 {
				return nil, "too-little-mana"
			}
		}
	}
	x := p.free.Uint64()
	if keep != nil && p.bound[*keep] != nil {
		x += p.bound[*keep].Uint64()
	}
	store.Mana += x
	return d, ""
}

// cost of a block with the transaction and an allotment for the block issuer.
func (w *run) cost(d *Draft, rc *recipe, slot uint32) (uint64, bool) {
	x := d.Clone()
	has := false
	for _, a := range x.Tx.Allotments {
		has = has || a.AccountID == rc.account
	}
	if !has {
		addAllotment(x.Tx, rc.account, 1)
	}
	x.Us = Sign(w.p, core.NewRNG(1), x.Tx, x.Coins, x.commitSlot())
	b := &model.Block{Version: w.p.Version, PayloadKind: model.PayloadTx, Tx: x.Signed()}
	return w.p.ManaCost(b, rc.rmc)
}

// holder gives the address that is to unlock an input, as it is written in the output.
func holder(p *model.Params, t *model.Tx, c *Coin, commit *uint32) *model.Addr {
	a := ownerOf(p, t, c, commit)
	for i := range c.O.UCs {
		x := c.O.UCs[i].Addr
		if x != nil && c.O.UCs[i].Type != model.UCSDR && x.Resolve().Equal(a) {
			return x
		}
	}
	return a
}

// tx feeds a builder.
func (w *run) txBuilder(r *core.RNG, api iotago.API, signer iotago.AddressSigner, d *Draft, rc *recipe, clones *[]*builder.TransactionBuilder) *builder.TransactionBuilder {
	t := d.Tx
	b := builder.NewTransactionBuilder(api, signer)
	// A clone is made and abused on the way.
	fork := func() {
		if clones != nil && r.Pct(15) {
			x := b.Clone()
			if r.Bool() { // the wallet goes on with the clone
				b, x = x, b
			}
			*clones = append(*clones, x)
			w.abuse(r, api, x, d, rc)
		}
	}
	do := []func(){}
	one := func(f func()) { do = append(do, f) }
	one(func() { b.SetCreationSlot(iotago.SlotIndex(t.CreationSlot)) })
	one(func() {
		for i, c := range d.Coins {
			a, err := realAddr(api, holder(w.p, t, c, d.commitSlot()))
			if err != nil {
				w.c.FailFor([]string{"W03", "B03"}, "address", "address does not decode: %v", err)
			}
			b.AddInput(&builder.TxInput{UnlockTarget: a, InputID: iotago.OutputID(t.Inputs[i]), Input: w.realOutput(api, c.O)})
			fork()
		}
	})
	one(func() {
		for _, o := range t.Outputs {
			b.AddOutput(w.makeOutput(r, api, o, w.prevOf(r, d, o)))
			fork()
		}
	})
	for _, x := range t.Ctx {
		one(func() {
			switch x.Type {
			case model.CtxCommitment:
				b.AddCommitmentInput(&iotago.CommitmentInput{CommitmentID: iotago.CommitmentID(x.Commit)})
			case model.CtxBIC:
				b.AddBlockIssuanceCreditInput(&iotago.BlockIssuanceCreditInput{AccountID: iotago.AccountID(x.AccountID)})
			case model.CtxReward:
				b.AddRewardInput(&iotago.RewardInput{Index: x.Index}, iotago.Mana(w.env.Reward(d.Coins[x.Index].Chain(), d.C.Slot)))
			}
		})
	}
	for _, a := range t.Allotments {
		one(func() {
			x := a.Mana
			if x > 1 && r.Pct(30) {
				y := 1 + r.U64n(x-1)
				b.IncreaseAllotment(iotago.AccountID(a.AccountID), iotago.Mana(y))
				x -= y
			}
			fork()
			b.IncreaseAllotment(iotago.AccountID(a.AccountID), iotago.Mana(x))
		})
	}
	if t.Payload != nil {
		one(func() { b.AddTaggedDataPayload(&iotago.TaggedData{Tag: t.Payload.Tag, Data: t.Payload.Data}) })
	}
	if len(t.Caps) > 0 {
		one(func() { b.WithTransactionCapabilities(append(iotago.TransactionCapabilitiesBitMask(nil), t.Caps...)) })
	}
	r.Shuffle(len(do), func(i, j int) { do[i], do[j] = do[j], do[i] })
	for _, f := range do {
		f()
		fork()
	}
	w.cook(b, t, rc)
	fork()
	return b
}

// cook applies a recipe.
func (w *run) cook(b *builder.TransactionBuilder, t *model.Tx, rc *recipe) {
	slot := iotago.SlotIndex(t.CreationSlot)
	switch rc.kind {
	case 1:
		b.AllotAllMana(slot, iotago.AccountID(rc.account), iotago.Mana(rc.min))
	case 2:
		b.StoreRemainingManaInOutputAndAllotRemainingAccountBoundMana(slot, rc.idx)
	case 3:
		b.AllotMinRequiredManaAndStoreRemainingManaInOutput(slot, iotago.Mana(rc.rmc), iotago.AccountID(rc.account), rc.idx)
	}
}

// abuse does to a builder what may not show in the one it was cloned from.
func (w *run) abuse(r *core.RNG, api iotago.API, b *builder.TransactionBuilder, d *Draft, rc *recipe) {
	t := d.Tx
	for k := r.Range(1, 4); k > 0; k-- {
		switch r.Intn(9) {
		case 0:
			b.AddOutput(w.realOutput(api, core.Pick(r, t.Outputs)))
		case 1:
			b.IncreaseAllotment(iotago.AccountID(r.Hash()), 1)
		case 2:
			for _, a := range t.Allotments {
				b.IncreaseAllotment(iotago.AccountID(a.AccountID), 1)
			}
		case 3:
			b.SetCreationSlot(iotago.SlotIndex(r.U32()))
		case 4:
			b.AddTaggedDataPayload(&iotago.TaggedData{Tag: []byte("x")})
		case 5:
			b.WithTransactionCapabilities(iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanDoAnything()))
		case 6:
			_, _ = b.Build()
		case 7:
			c := core.Pick(r, w.s.List())
			a, err := realAddr(api, edAddr(allKeys[0]))
			if err == nil {
				b.AddInput(&builder.TxInput{UnlockTarget: a, InputID: iotago.OutputID(c.ID), Input: w.realOutput(api, c.O)})
			}
		case 8:
			x := *rc
			x.kind = 1 + r.Intn(3)
			if x.kind > 1 {
				x.idx = r.Intn(len(t.Outputs))
			}
			w.cook(b, t, &x)
		}
	}
}

func (w *run) prevOf(r *core.RNG, d *Draft, o *model.Output) *model.Output {
	switch {
	case o.Kind == model.OutBasic:
		// any basic output that is spent will do
		var l []*model.Output
		for _, c := range d.Coins {
			if c.O.Kind == o.Kind {
				l = append(l, c.O)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return core.Pick(r, l)
	case o.Kind != model.OutFoundry && o.ID == (model.Hash{}):
		return nil
	}
	for _, c := range d.Coins {
		if c.O.Kind == o.Kind && c.O.IsChain() && c.Chain() == o.ChainIDFor(model.OutputID{}) {
			return c.O
		}
	}
	return nil
}

func (w *run) realOutput(api iotago.API, o *model.Output) iotago.Output {
	var x iotago.TxEssenceOutput
	if _, err := api.Decode(model.EncOutput(o), &x, serix.WithValidation()); err != nil {
		w.c.FailFor([]string{"B03", "B01"}, "output", "output does not decode: %v", err)
	}
	return x
}

// tooMuchMana tells whether a transaction gives out more mana than a transaction may.
func (w *run) tooMuchMana(t *model.Tx) bool {
	sum := func(n int, f func(int) uint64) bool {
		s, over := uint64(0), uint64(0)
		for i := 0; i < n; i++ {
			if s, over = bits.Add64(s, f(i), 0); over != 0 || s > w.p.MaxMana() {
				return true
			}
		}
		return false
	}
	return sum(len(t.Outputs), func(i int) uint64 { return t.Outputs[i].Mana }) || sum(len(t.Allotments), func(i int) uint64 { return t.Allotments[i].Mana })
}

// leave takes mana out of a draft for the recipe, and picks the output for the rest.
func (w *run) leave(r *core.RNG, d *Draft, rc *recipe) {
	t := d.Tx
	// some mana is left for the recipe
	f := core.Pick(r, []uint64{0, 0, 1, 2})
	for _, o := range t.Outputs {
		if f == 0 || r.Pct(50) {
			o.Mana = 0
		} else {
			o.Mana /= f
		}
	}
	var as []model.Allotment
	for _, a := range t.Allotments {
		if f > 0 && r.Bool() {
			if a.Mana /= f; a.Mana > 0 {
				as = append(as, a)
			}
		}
	}
	t.Allotments = as
	if r.Pct(4) && len(t.Outputs) > 0 {
		o := core.Pick(r, t.Outputs)
		if o.Kind != model.OutFoundry && o.Kind != model.OutDelegation && capAll(o, model.ACapMana) && !(d.fix[o] && o.Kind == model.OutBasic) {
			o.Mana += 1 + r.U64n(1<<uint(r.Intn(60)))
		}
	}
	var recv []int
	for i, o := range t.Outputs {
		if o.Kind != model.OutFoundry && o.Kind != model.OutDelegation && capAll(o, model.ACapMana) && !(d.fix[o] && o.Kind == model.OutBasic) {
			recv = append(recv, i)
		}
	}
	rc.idx = len(t.Outputs) + r.Intn(3)
	if len(recv) > 0 && r.Pct(95) {
		rc.idx = core.Pick(r, recv)
	} else if r.Bool() {
		for i, o := range t.Outputs {
			if o.Kind == model.OutFoundry || o.Kind == model.OutDelegation {
				rc.idx = i
			}
		}
	}
}

// opWallet builds a transaction with the builders.
func (w *run) opWallet() {
	c, r := w.c, w.rng
	slot := w.skewed()
	var d *Draft
	var pl *Planner
	for try := 0; try < 6 && d == nil; try++ {
		pl = &Planner{P: w.p, S: w.s, R: r, B: w.bias, Now: slot, C: w.pickCommit(slot), Env: w.env}
		d = pl.Plan()
	}
	if d == nil {
		c.Count("no-plan")
		return
	}
	if d.C != nil && d.C.Slot > d.Tx.CreationSlot {
		// the wallet takes locks relative to its own clock, which may not be behind the commitment
		c.Count("wallet-behind")
		return
	}
	// the builder makes no empty allotments
	some := d.Tx.Allotments[:0:0]
	for _, a := range d.Tx.Allotments {
		if a.Mana > 0 {
			some = append(some, a)
		}
	}
	if len(some) < len(d.Tx.Allotments) {
		d.Tx.Allotments = some
		d.Us = Sign(w.p, core.NewRNG(1), d.Tx, d.Coins, d.commitSlot())
	}
	if m := modelJudge(w.p, w.s, w.cs, w.env, model.EncBlock(w.wrap(d.Signed(), slot))); !m.OK() {
		c.Count("plan-invalid")
		return
	}
	api := RealAPI(w.p)
	rc := &recipe{kind: r.Intn(4)}
	t := d.Tx
	rc.account = r.Hash()
	var accs []model.Hash
	for _, x := range d.Coins {
		if x.O.IsImplicit() || x.O.Kind == model.OutAccount {
			var h model.Hash
			copy(h[:], x.Chain()[1:])
			accs = append(accs, h)
		}
	}
	for _, a := range t.Allotments {
		accs = append(accs, a.AccountID)
	}
	if len(accs) > 0 && r.Pct(60) {
		rc.account = core.Pick(r, accs)
	}
	rc.rmc = core.Pick(r, []uint64{0, 1, 1, 2, 10, r.U64() >> uint(r.Intn(64))})
	if rc.kind > 0 {
		w.leave(r, d, rc)
	}
	purse, ok := w.purse(d, t.CreationSlot)
	if !ok {
		return
	}
	if rc.kind == 1 {
		rc.min = core.Pick(r, []uint64{0, 0, 1, r.U64() >> uint(r.Intn(64))})
	}
	// who signs
	missing := -1
	var pairs []iotago.AddressKeys
	if r.Pct(6) {
		missing = r.Intn(len(allKeys))
	}
	var privs []ed25519.PrivateKey
	for i, k := range allKeys {
		if i != missing {
			privs = append(privs, k.Priv)
			pairs = append(pairs, iotago.NewAddressKeysForEd25519Address(iotago.Ed25519AddressFromPubKey(k.Pub[:]), k.Priv),
				iotago.NewAddressKeysForImplicitAccountCreationAddress(iotago.ImplicitAccountCreationAddressFromPubKey(k.Pub[:]), k.Priv))
		}
	}
	var signer iotago.AddressSigner
	if r.Bool() {
		signer = iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(privs...)
	} else {
		r.Shuffle(len(pairs), func(i, j int) { pairs[i], pairs[j] = pairs[j], pairs[i] })
		signer = iotago.NewInMemoryAddressSigner(pairs...)
	}

	want, why := w.expect(d, rc, slot)
	signable := true
	if why == "" && w.tooMuchMana(want.Tx) {
		c.Count("mana-limit")
		return
	}
	for _, x := range d.Coins {
		a := ownerOf(w.p, t, x, d.commitSlot())
		switch {
		case !a.IsDirect() && !a.IsChain():
			why, signable = "multi-address", false
		case a.IsDirect() && missing >= 0 && a.ID == allKeys[missing].Addr:
			signable = false
			if why == "" {
				why = "missing-key"
			}
		}
	}
	c.Evals++
	c.State("recipe", fmt.Sprint(rc.kind), why)

	// the builder's view of the available mana
	var clones []*builder.TransactionBuilder
	seed := r.U64()
	b := w.txBuilder(core.NewRNG(seed), api, signer, d, &recipe{}, nil)
	w.askMana(b, d, purse)
	if signable {
		w.askCost(b, d, rc, slot)
	}

	// clones made on the way, and abused, make no difference
	b = w.txBuilder(core.NewRNG(seed), api, signer, d, rc, &clones)
	if len(clones) > 0 {
		c.Count("cloned")
	}
	header := w.blockAt(slot)
	if ci := t.Commitment(); ci != nil && model.SlotOf(header.Commitment) < model.SlotOf(ci.Commit) {
		header.Commitment = ci.Commit
	}
	header.PayloadKind = model.PayloadTx
	key := core.Pick(r, allKeys)
	rmc := core.Pick(r, []uint64{0, 1, r.U64() >> uint(r.Intn(64))})
	var signed *iotago.SignedTransaction
	bb := b.BuildAndSwapToBlockBuilder(func(tx *iotago.SignedTransaction) { signed = tx })
	r.Shuffle(len(header.Strong), func(i, j int) { header.Strong[i], header.Strong[j] = header.Strong[j], header.Strong[i] })
	ids := func(x []model.ID36) (y iotago.BlockIDs) {
		for _, id := range x {
			y = append(y, iotago.BlockID(id))
			if r.Pct(10) {
				y = append(y, iotago.BlockID(id))
			}
		}
		return
	}
	bb.StrongParents(ids(header.Strong)).WeakParents(ids(header.Weak)).ShallowLikeParents(ids(header.Shallow)).
		IssuingTime(time.Unix(0, int64(header.IssuingTime))).SlotCommitmentID(iotago.CommitmentID(header.Commitment)).LatestFinalizedSlot(iotago.SlotIndex(header.Finalized))
	burn := r.Bool()
	if burn {
		bb.CalculateAndSetMaxBurnedMana(iotago.Mana(rmc))
	} else {
		bb.MaxBurnedMana(iotago.Mana(header.MaxBurned))
	}
	if r.Bool() {
		bb.Sign(iotago.AccountID(header.Issuer), key.Priv)
	} else {
		bb.SignWithSigner(iotago.AccountID(header.Issuer), iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(key.Priv), iotago.Ed25519AddressFromPubKey(key.Pub[:]))
	}
	blk, err := bb.Build()
	if why != "" {
		c.Count("refused." + why)
		c.Check(err != nil, "unacceptable", "recipe %+v: a transaction was built although it can not be valid: %s", *rc, why)
		if why == "missing-key" {
			c.Check(errors.Is(err, iotago.ErrAddressKeysNotMapped), "wrong-error", "the wallet misses a key, the error is: %v", err)
		}
		return
	}
	sortIDs(header.Strong)
	Us := Sign(w.p, core.NewRNG(1), want.Tx, want.Coins, want.commitSlot())
	header.Tx = &model.SignedTx{Tx: want.Tx, Unlocks: Us}
	if burn {
		header.MaxBurned, ok = w.p.ManaCost(header, rmc)
		if !ok {
			c.Check(err != nil, "burn-overflow", "the block's cost at %d is more than there can be", rmc)
			return
		}
	}
	c.Check(err == nil, "refused-build", "recipe %+v: the transaction could not be built: %v\n%s", *rc, err, describeTx(want))
	c.Check(signed != nil && blk.Body.(*iotago.BasicBlockBody).Payload == iotago.ApplicationPayload(signed), "payload", "the block does not carry the transaction that was built")
	header.Pub = key.Pub
	copy(header.Sig[:], ed25519.Sign(key.Priv, model.BlockSigningMessage(header)))
	got, err := api.Encode(blk, serix.WithValidation())
	c.Check(err == nil, "invalid-block", "recipe %+v: the built block is not valid: %v", *rc, err)
	wantB := model.EncBlock(header)
	if !bytes.Equal(got, wantB) {
		c.Fail("other-block", "recipe %+v: the built block is\n%x\ninstead of\n%x\n%s\n%s", *rc, got, wantB, diffAt(got, wantB), describeTx(want))
	}
	if rc.kind == 3 {
		y := uint64(0)
		for _, a := range want.Tx.Allotments {
			if a.AccountID == rc.account {
				y = a.Mana
			}
		}
		cost, ok := w.p.ManaCost(header, rc.rmc)
		c.Check(ok && y >= cost, "uncovered", "the block costs %d, the allotment is %d", cost, y)
	}
	m := w.append(got, fmt.Sprintf("wallet:%d", rc.kind))
	c.Count("wallet." + m.Stage)
	if !m.OK() {
		c.Fail("unacceptable", "recipe %+v: the built transaction is not acceptable: %s\n%s", *rc, m.Short(), describeTx(want))
	}
}

func describeTx(d *Draft) string {
	s := fmt.Sprintf("created %d", d.Tx.CreationSlot)
	if d.C != nil {
		s += fmt.Sprintf(" commitment %d", d.C.Slot)
	}
	for _, c := range d.Coins {
		s += fmt.Sprintf("\nin %s amount %d mana %d slot %d", outShape(c.O), c.O.Amount, c.O.Mana, c.Slot())
	}
	for _, o := range d.Tx.Outputs {
		s += fmt.Sprintf("\nout %s amount %d mana %d", outShape(o), o.Amount, o.Mana)
	}
	for _, a := range d.Tx.Allotments {
		s += fmt.Sprintf("\nallotment %x %d", a.AccountID[:4], a.Mana)
	}
	return s
}

// askMana compares the builder's idea of the available mana with the rules.
func (w *run) askMana(b *builder.TransactionBuilder, d *Draft, p *purse) {
	c, r := w.c, w.rng
	slot := d.Tx.CreationSlot
	if r.Pct(30) {
		slot += uint32(r.Intn(1 << uint(r.Intn(16))))
		var ok bool
		if p, ok = w.purse(d, slot); !ok {
			return
		}
	}
	res, err := b.CalculateAvailableManaInputs(iotago.SlotIndex(slot))
	if p.sum().BitLen() > 64 {
		c.Check(err != nil, "mana-overflow", "more mana than there can be is available")
		return
	}
	c.Check(err == nil, "available", "the available mana could not be calculated: %v", err)
	cmp := func(what string, got iotago.Mana, want *big.Int) {
		c.Check(bigU(uint64(got)).Cmp(want) == 0, "available-"+what, "available %s mana at slot %d is %d, by the rules %v\n%s", what, slot, got, want, describeTx(d))
	}
	cmp("stored", res.StoredMana, p.stored)
	cmp("potential", res.PotentialMana, p.potential)
	cmp("reward", res.Rewards, p.reward)
	cmp("unbound", res.UnboundMana, p.free)
	for h, x := range p.bound {
		cmp(fmt.Sprintf("account %x", h[:4]), res.AccountBoundMana[iotago.AccountID(h)], x)
	}
	for h := range res.AccountBoundMana {
		c.Check(p.bound[model.Hash(h)] != nil, "available-account", "mana is bound to account %x which is no input\n%s", h[:], describeTx(d))
	}
	// and what remains
	q, _ := w.purse(d, slot)
	ok := w.spend(q, d.Tx)
	left, err := b.CalculateAvailableManaRemaining(iotago.SlotIndex(slot))
	if !ok {
		c.Check(err != nil, "remaining", "the transaction spends more mana than there is, the builder says %+v remain", left)
		return
	}
	c.Check(err == nil, "remaining", "the remaining mana could not be calculated: %v\n%s", err, describeTx(d))
	cmp("remaining unbound", left.UnboundMana, q.free)
	for h, x := range q.bound {
		cmp(fmt.Sprintf("remaining account %x", h[:4]), left.AccountBoundMana[iotago.AccountID(h)], x)
	}
}

// askCost compares the required allotment with the cost of the block.
func (w *run) askCost(b *builder.TransactionBuilder, d *Draft, rc *recipe, slot uint32) {
	c := w.c
	before, err := b.Build()
	c.Check(err == nil, "refused-build", "the planned transaction could not be built: %v", err)
	x := before.Transaction.Clone()
	b1, err1 := before.API.Encode(before.Transaction)
	cost, ok := w.cost(d, rc, slot)
	got, err := b.MinRequiredAllottedMana(iotago.Mana(rc.rmc), iotago.AccountID(rc.account))
	if !ok {
		c.Check(err != nil, "cost-overflow", "the block can not be paid, the builder requires %d", got)
	} else {
		c.Check(err == nil && uint64(got) == cost, "cost", "the block requires %d, the builder says %d (%v)\n%s", cost, got, err, describeTx(d))
	}
	after, err := b.Build()
	c.Check(err == nil && err1 == nil, "refused-build", "the planned transaction could not be built again: %v", err)
	b2, err := after.API.Encode(after.Transaction)
	x.API = before.API
	b3, err3 := after.API.Encode(x)
	c.Check(err == nil && err3 == nil && bytes.Equal(b1, b2) && bytes.Equal(b1, b3), "cost-changes", "asking for the required mana changed the transaction")
}
