package ledger

import (
	"bytes"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

// makeOutput makes an output with the output builders, from its previous state where there is one.
func (w *run) makeOutput(r *core.RNG, api iotago.API, o, prev *model.Output) iotago.Output {
	ref := w.realOutput(api, o)
	if r.Pct(30) {
		return ref
	}
	var p iotago.Output
	if prev != nil && r.Pct(70) {
		p = w.realOutput(api, prev)
	}
	var x iotago.Output
	var err error
	switch o := ref.(type) {
	case *iotago.BasicOutput:
		q, _ := p.(*iotago.BasicOutput)
		x, err = makeBasic(r, o, q)
	case *iotago.AccountOutput:
		q, _ := p.(*iotago.AccountOutput)
		x, err = makeAccount(r, o, q)
	case *iotago.AnchorOutput:
		q, _ := p.(*iotago.AnchorOutput)
		x, err = makeAnchor(r, o, q)
	case *iotago.FoundryOutput:
		q, _ := p.(*iotago.FoundryOutput)
		x, err = makeFoundry(r, o, q)
	case *iotago.NFTOutput:
		q, _ := p.(*iotago.NFTOutput)
		x, err = makeNFT(r, o, q)
	case *iotago.DelegationOutput:
		q, _ := p.(*iotago.DelegationOutput)
		x, err = makeDelegation(r, o, q)
	}
	c := w.c
	if x == nil {
		return ref
	}
	c.Check(err == nil, "output-build", "output %s could not be built: %v", outShape(o), err)
	b, err := api.Encode(x)
	c.Check(err == nil && bytes.Equal(b, model.EncOutput(o)), "output-build", "the built output %s is (%v)\n%x\ninstead of\n%x", outShape(o), err, b, model.EncOutput(o))
	if p != nil {
		b, err := api.Encode(p)
		c.Check(err == nil && bytes.Equal(b, model.EncOutput(prev)), "output-previous", "building a new state changed the previous one (%v):\n%x\nwas\n%x", err, b, model.EncOutput(prev))
		c.Count("from-previous")
	}
	c.Count("output-built")
	if r.Pct(10) {
		w.misuse(r, ref)
	}
	return x
}

// misuse asks a builder for what it has to refuse, or for its defaults.
func (w *run) misuse(r *core.RNG, o iotago.Output) {
	c := w.c
	meta := iotago.MetadataFeatureEntries{"misuse": r.Bytes(9)}
	issuer := &iotago.Ed25519Address{}
	copy(issuer[:], r.Bytes(32))
	twice := r.Bool()
	switch o := o.(type) {
	case *iotago.AccountOutput:
		b := builder.NewAccountOutputBuilderFromPrevious(o)
		if twice {
			b.ImmutableIssuer(issuer)
		} else {
			b.ImmutableMetadata(meta)
		}
		_, err := b.Build()
		c.Check(err != nil, "immutable", "an account's immutable features could be changed")
		x, err := builder.NewAccountOutputBuilder(issuer, o.Amount).Staking(1, 2, 3).Build()
		c.Check(err == nil && x.FeatureSet().Staking() != nil && x.FeatureSet().Staking().EndEpoch == iotago.MaxEpochIndex, "staking-end", "an account that stakes without an end is built as %+v (%v)", x, err)
	case *iotago.NFTOutput:
		b := builder.NewNFTOutputBuilderFromPrevious(o)
		if twice {
			b.ImmutableIssuer(issuer)
		} else {
			b.ImmutableMetadata(meta)
		}
		_, err := b.Build()
		c.Check(err != nil, "immutable", "an NFT's immutable features could be changed")
	case *iotago.FoundryOutput:
		_, err := builder.NewFoundryOutputBuilderFromPrevious(o).ImmutableMetadata(meta).Build()
		c.Check(err != nil, "immutable", "a foundry's immutable features could be changed")
	case *iotago.AnchorOutput:
		b := builder.NewAnchorOutputBuilderFromPrevious(o)
		if twice {
			b.ImmutableIssuer(issuer)
		} else {
			b.ImmutableMetadata(meta)
		}
		_, err := b.Build()
		c.Check(err != nil, "immutable", "an anchor's immutable features could be changed")
		b = builder.NewAnchorOutputBuilderFromPrevious(o)
		do := []func(){func() { b.StateTransition().Amount(o.Amount + 1) }, func() { b.GovernanceTransition().Governor(issuer) }}
		if twice {
			do[0] = func() { b.StateTransition().StateMetadata(iotago.StateMetadataFeatureEntries{"a": {1}}) }
			do[1] = func() { b.GovernanceTransition().StateController(issuer) }
		}
		shuffled(r, do)
		_, err = b.Build()
		c.Check(err != nil, "both-roles", "an anchor could be built by its state controller and its governor at once")
	}
}

func shuffled(r *core.RNG, fs []func()) {
	r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for _, f := range fs {
		f()
	}
}

func makeBasic(r *core.RNG, o, p *iotago.BasicOutput) (iotago.Output, error) {
	u, f := o.UnlockConditionSet(), o.FeatureSet()
	b := builder.NewBasicOutputBuilder(u.Address().Address, o.Amount)
	if p != nil {
		// conditions and features can not be taken away
		for t := range p.UnlockConditionSet() {
			if u[t] == nil {
				p = nil
				break
			}
		}
	}
	if p != nil {
		for t := range p.FeatureSet() {
			if f[t] == nil {
				p = nil
				break
			}
		}
	}
	if p != nil {
		b = builder.NewBasicOutputBuilderFromPrevious(p).Address(u.Address().Address).Amount(o.Amount)
	} else if r.Pct(30) {
		b = builder.NewBasicOutputBuilder(&iotago.Ed25519Address{}, 1).Address(u.Address().Address).Amount(o.Amount)
	}
	fs := []func(){func() { b.Mana(o.Mana) }}
	if x := u.StorageDepositReturn(); x != nil {
		fs = append(fs, func() { b.StorageDepositReturn(x.ReturnAddress, x.Amount) })
	}
	if x := u.Timelock(); x != nil {
		fs = append(fs, func() { b.Timelock(x.Slot) })
	}
	if x := u.Expiration(); x != nil {
		fs = append(fs, func() { b.Expiration(x.ReturnAddress, x.Slot) })
	}
	if x := f.SenderFeature(); x != nil {
		fs = append(fs, func() { b.Sender(x.Address) })
	}
	if x := f.Metadata(); x != nil {
		fs = append(fs, func() { b.Metadata(x.Entries) })
	}
	if x := f.Tag(); x != nil {
		fs = append(fs, func() { b.Tag(x.Tag) })
	}
	if x := f.NativeToken(); x != nil {
		fs = append(fs, func() { b.NativeToken(x) })
	}
	shuffled(r, fs)
	x, err := b.Build()
	return x, err
}

func makeNFT(r *core.RNG, o, p *iotago.NFTOutput) (iotago.Output, error) {
	u, f, i := o.UnlockConditionSet(), o.FeatureSet(), o.ImmutableFeatureSet()
	b := builder.NewNFTOutputBuilder(u.Address().Address, o.Amount).NFTID(o.NFTID)
	if p != nil {
		// conditions and features can not be taken away
		pu, pf := p.UnlockConditionSet(), p.FeatureSet()
		for t := range pu {
			if u[t] == nil {
				p = nil
				break
			}
		}
		if p != nil {
			for t := range pf {
				if f[t] == nil {
					p = nil
					break
				}
			}
		}
	}
	if p != nil {
		b = builder.NewNFTOutputBuilderFromPrevious(p).Amount(o.Amount).Address(u.Address().Address)
		if p.NFTID.Empty() {
			b.NFTID(o.NFTID)
		}
	}
	fs := []func(){func() { b.Mana(o.Mana) }}
	if x := u.StorageDepositReturn(); x != nil {
		fs = append(fs, func() { b.StorageDepositReturn(x.ReturnAddress, x.Amount) })
	}
	if x := u.Timelock(); x != nil {
		fs = append(fs, func() { b.Timelock(x.Slot) })
	}
	if x := u.Expiration(); x != nil {
		fs = append(fs, func() { b.Expiration(x.ReturnAddress, x.Slot) })
	}
	if x := f.SenderFeature(); x != nil {
		fs = append(fs, func() { b.Sender(x.Address) })
	}
	if x := f.Metadata(); x != nil {
		fs = append(fs, func() { b.Metadata(x.Entries) })
	}
	if x := f.Tag(); x != nil {
		fs = append(fs, func() { b.Tag(x.Tag) })
	}
	if p == nil {
		if x := i.Issuer(); x != nil {
			fs = append(fs, func() { b.ImmutableIssuer(x.Address) })
		}
		if x := i.Metadata(); x != nil {
			fs = append(fs, func() { b.ImmutableMetadata(x.Entries) })
		}
	}
	shuffled(r, fs)
	x, err := b.Build()
	return x, err
}

func makeAccount(r *core.RNG, o, p *iotago.AccountOutput) (iotago.Output, error) {
	u, f, i := o.UnlockConditionSet(), o.FeatureSet(), o.ImmutableFeatureSet()
	b := builder.NewAccountOutputBuilder(u.Address().Address, o.Amount).AccountID(o.AccountID).FoundriesToGenerate(o.FoundryCounter)
	var fs []func()
	if p != nil {
		b = builder.NewAccountOutputBuilderFromPrevious(p).Amount(o.Amount).Address(u.Address().Address).FoundriesToGenerate(o.FoundryCounter - p.FoundryCounter)
		if p.AccountID.Empty() {
			b.AccountID(o.AccountID)
		}
		for _, x := range p.Features {
			if t := x.Type(); f[t] == nil {
				fs = append(fs, func() { b.RemoveFeature(t) })
			}
		}
	}
	fs = append(fs, func() { b.Mana(o.Mana) })
	if x := f.SenderFeature(); x != nil {
		fs = append(fs, func() { b.Sender(x.Address) })
	}
	if x := f.Metadata(); x != nil {
		fs = append(fs, func() { b.Metadata(x.Entries) })
	}
	if x := f.BlockIssuer(); x != nil {
		var old iotago.BlockIssuerKeys
		if p != nil && p.FeatureSet().BlockIssuer() != nil {
			old = p.FeatureSet().BlockIssuer().BlockIssuerKeys.Clone()
		}
		fs = append(fs, func() {
			switch r.Intn(3) {
			case 0:
				b.BlockIssuer(x.BlockIssuerKeys, x.ExpirySlot)
			case 1:
				b.BlockIssuerTransition().ExpirySlot(x.ExpirySlot).Keys(x.BlockIssuerKeys)
			case 2:
				t := b.BlockIssuerTransition().ExpirySlot(x.ExpirySlot)
				for _, k := range x.BlockIssuerKeys {
					t.AddKeys(k)
				}
				for _, k := range old {
					if !x.BlockIssuerKeys.Has(k) {
						t.RemoveKey(k)
					}
				}
			}
		})
	}
	if x := f.Staking(); x != nil {
		fs = append(fs, func() {
			switch {
			case r.Bool():
				b.StakingTransition().StakedAmount(x.StakedAmount).FixedCost(x.FixedCost).StartEpoch(x.StartEpoch).EndEpoch(x.EndEpoch)
			case x.EndEpoch == iotago.MaxEpochIndex:
				b.Staking(x.StakedAmount, x.FixedCost, x.StartEpoch)
			default:
				b.Staking(x.StakedAmount, x.FixedCost, x.StartEpoch, x.EndEpoch)
			}
		})
	}
	if p == nil {
		if x := i.Issuer(); x != nil {
			fs = append(fs, func() { b.ImmutableIssuer(x.Address) })
		}
		if x := i.Metadata(); x != nil {
			fs = append(fs, func() { b.ImmutableMetadata(x.Entries) })
		}
	}
	shuffled(r, fs)
	x, err := b.Build()
	return x, err
}

func makeAnchor(r *core.RNG, o, p *iotago.AnchorOutput) (iotago.Output, error) {
	u, f, i := o.UnlockConditionSet(), o.FeatureSet(), o.ImmutableFeatureSet()
	st, gov := u.StateControllerAddress().Address, u.GovernorAddress().Address
	var fs []func()
	if p == nil {
		if o.StateIndex != 0 {
			return nil, nil
		}
		b := builder.NewAnchorOutputBuilder(st, gov, o.Amount).AnchorID(o.AnchorID)
		if r.Pct(30) {
			b.StateController(st).Governor(gov)
		}
		fs = append(fs, func() { b.Mana(o.Mana) })
		if x := f.Metadata(); x != nil {
			fs = append(fs, func() { b.Metadata(x.Entries) })
		}
		if x := f.StateMetadata(); x != nil {
			fs = append(fs, func() { b.StateMetadata(x.Entries) })
		}
		if x := i.Issuer(); x != nil {
			fs = append(fs, func() { b.ImmutableIssuer(x.Address) })
		}
		if x := i.Metadata(); x != nil {
			fs = append(fs, func() { b.ImmutableMetadata(x.Entries) })
		}
		shuffled(r, fs)
		x, err := b.Build()
		return x, err
	}
	for t := range p.FeatureSet() {
		if f[t] == nil {
			return nil, nil
		}
	}
	b := builder.NewAnchorOutputBuilderFromPrevious(p)
	if p.AnchorID.Empty() {
		b.AnchorID(o.AnchorID)
	}
	if o.StateIndex == p.StateIndex {
		t := b.GovernanceTransition()
		fs = append(fs, func() { t.StateController(st) }, func() { t.Governor(gov) })
		if x := f.Metadata(); x != nil {
			fs = append(fs, func() { t.Metadata(x.Entries) })
		}
		if o.Mana != p.Mana {
			b.Mana(o.Mana)
		}
	} else {
		t := b.StateTransition()
		fs = append(fs, func() { t.Amount(o.Amount) }, func() { t.Mana(o.Mana) })
		if x := f.StateMetadata(); x != nil {
			fs = append(fs, func() { t.StateMetadata(x.Entries) })
		}
	}
	shuffled(r, fs)
	x, err := b.Build()
	return x, err
}

func makeFoundry(r *core.RNG, o, p *iotago.FoundryOutput) (iotago.Output, error) {
	u, f, i := o.UnlockConditionSet(), o.FeatureSet(), o.ImmutableFeatureSet()
	b := builder.NewFoundryOutputBuilder(u.ImmutableAccount().Address, o.Amount, o.SerialNumber, o.TokenScheme)
	if p != nil {
		for t := range p.FeatureSet() {
			if f[t] == nil {
				p = nil
				break
			}
		}
	}
	var fs []func()
	if p != nil {
		b = builder.NewFoundryOutputBuilderFromPrevious(p).Amount(o.Amount).TokenScheme(o.TokenScheme)
	}
	if x := f.Metadata(); x != nil {
		fs = append(fs, func() { b.Metadata(x.Entries) })
	}
	if x := f.NativeToken(); x != nil {
		fs = append(fs, func() { b.NativeToken(x) })
	}
	if x := i.Metadata(); x != nil && p == nil {
		fs = append(fs, func() { b.ImmutableMetadata(x.Entries) })
	}
	shuffled(r, fs)
	x, err := b.Build()
	return x, err
}

func makeDelegation(r *core.RNG, o, p *iotago.DelegationOutput) (iotago.Output, error) {
	u := o.UnlockConditionSet()
	b := builder.NewDelegationOutputBuilder(o.ValidatorAddress, u.Address().Address, o.Amount)
	if p != nil {
		b = builder.NewDelegationOutputBuilderFromPrevious(p)
		if r.Bool() {
			b.ValidatorAddress(o.ValidatorAddress)
		}
	}
	shuffled(r, []func(){
		func() { b.Amount(o.Amount) }, func() { b.DelegatedAmount(o.DelegatedAmount) }, func() { b.DelegationID(o.DelegationID) },
		func() { b.StartEpoch(o.StartEpoch) }, func() { b.EndEpoch(o.EndEpoch) }, func() { b.Address(u.Address().Address) },
	})
	x, err := b.Build()
	return x, err
}
