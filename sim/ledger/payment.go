package ledger

import (
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

// Payment is a transaction that a wallet wants a block issuer to issue.
type Payment struct {
	w       *run
	d       *Draft
	rc      *recipe
	seed    uint64
	missing bool
	signer  iotago.AddressSigner
}

// Payment plans a transaction that leaves mana for its block.
func (p *Pool) Payment(r *core.RNG) *Payment {
	w := p.w
	var d *Draft
	for try := 0; try < 8 && d == nil; try++ {
		pl := &Planner{P: w.p, S: w.s, R: r.Fork(), B: w.bias, Now: w.slot, C: w.pickCommit(w.slot), Env: w.env}
		x := pl.Plan()
		if x == nil || x.C != nil && x.C.Slot > x.Tx.CreationSlot {
			continue
		}
		some := x.Tx.Allotments[:0:0]
		for _, a := range x.Tx.Allotments {
			if a.Mana > 0 {
				some = append(some, a)
			}
		}
		x.Tx.Allotments = some
		x.Us = Sign(w.p, core.NewRNG(1), x.Tx, x.Coins, x.commitSlot())
		if !modelJudge(w.p, w.s, w.cs, w.env, model.EncBlock(w.wrap(x.Signed(), w.slot))).OK() {
			continue
		}
		d = x
		for _, c := range x.Coins {
			if a := ownerOf(w.p, x.Tx, c, x.commitSlot()); !a.IsDirect() && !a.IsChain() && r.Pct(95) {
				d = nil
			}
		}
	}
	if d == nil {
		return nil
	}
	y := &Payment{w: w, d: d, rc: &recipe{kind: 3}, seed: r.U64()}
	w.leave(r, d, y.rc)
	var pairs []iotago.AddressKeys
	miss := -1
	if r.Pct(4) {
		miss = r.Intn(len(allKeys))
	}
	for i, k := range allKeys {
		if i != miss {
			pairs = append(pairs, iotago.NewAddressKeysForEd25519Address(iotago.Ed25519AddressFromPubKey(k.Pub[:]), k.Priv),
				iotago.NewAddressKeysForImplicitAccountCreationAddress(iotago.ImplicitAccountCreationAddressFromPubKey(k.Pub[:]), k.Priv))
		}
	}
	y.signer = iotago.NewInMemoryAddressSigner(pairs...)
	for _, c := range d.Coins {
		a := ownerOf(w.p, d.Tx, c, d.commitSlot())
		y.missing = y.missing || a.IsDirect() && miss >= 0 && a.ID == allKeys[miss].Addr || !a.IsDirect() && !a.IsChain()
	}
	return y
}

// Slot the transaction is created in.
func (y *Payment) Slot() uint32 { return y.d.Tx.CreationSlot }

// SetSlot changes the slot the transaction is created in.
func (y *Payment) SetSlot(s uint32) { y.d.Tx.CreationSlot = s }

// Output that gets the mana that is left.
func (y *Payment) Output() int { return y.rc.idx }

// Builder gives a builder with the transaction.
func (y *Payment) Builder(api iotago.API) *builder.TransactionBuilder {
	return y.w.txBuilder(core.NewRNG(y.seed), api, y.signer, y.d, &recipe{}, nil)
}

// Expect gives the transaction for an issuer and a reference mana cost, or why there can be none.
func (y *Payment) Expect(issuer model.Hash, rmc uint64) (*model.SignedTx, string) {
	rc := *y.rc
	rc.account, rc.rmc = issuer, rmc
	d, why := y.w.expect(y.d, &rc, y.d.Tx.CreationSlot)
	switch {
	case why != "":
		return nil, why
	case y.missing:
		return nil, "can-not-sign"
	case y.w.tooMuchMana(d.Tx):
		return nil, "mana-limit"
	}
	return &model.SignedTx{Tx: d.Tx, Unlocks: Sign(y.w.p, core.NewRNG(1), d.Tx, d.Coins, d.commitSlot())}, ""
}

// Payload draws a payload other than a transaction with its bytes.
func (p *Pool) Payload(r *core.RNG) *model.Block {
	b := &model.Block{Version: p.P.Version, PayloadKind: -1}
	if r.Pct(80) {
		b.PayloadKind = model.PayloadTagged
		b.Tagged = &model.Tagged{Tag: r.Bytes(r.Intn(65)), Data: r.Bytes(r.Intn(1 << uint(r.Intn(13))))}
	} else {
		b.PayloadKind = model.PayloadCandidacy
	}
	return b
}

// Accounts of the ledger.
func (p *Pool) Accounts() (hs []model.Hash) {
	for _, c := range p.w.s.List() {
		if c.O.Kind == model.OutAccount {
			var h model.Hash
			copy(h[:], c.Chain()[1:])
			hs = append(hs, h)
		}
	}
	return
}
