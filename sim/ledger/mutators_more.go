package ledger

import (
	"math/big"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

func init() { mutators = append(mutators, moreMutators...) }

// multiInputs gives the inputs owned by a multi address, by address.
func (x *mx) multiInputs() [][]int {
	var r [][]int
	at := map[string]int{}
	for i, c := range x.d.Coins {
		if a := ownerOf(x.P, x.t, c, x.d.commitSlot()); a.Kind == model.AddrMulti {
			n, ok := at[a.Key()]
			if !ok {
				n = len(r)
				at[a.Key()] = n
				r = append(r, nil)
			}
			r[n] = append(r[n], i)
		}
	}
	return r
}

// again adds a second coin of the owner of a coin of the transaction, where the ledger has one.
func (x *mx) again(pred func(a *model.Addr) bool) bool {
	if len(x.d.Coins) > 100 {
		return false
	}
	for _, c := range x.d.Coins {
		a := ownerOf(x.P, x.t, c, x.d.commitSlot())
		if a == nil || !pred(a) {
			continue
		}
		n := x.coin(func(y *Coin) bool {
			return y.O.Kind == model.OutBasic && len(y.O.UCs) == 1 && y.O.Feat(model.FNativeToken) == nil &&
				y.Slot() <= x.t.CreationSlot && y.O.UCs[0].Addr.Resolve().Equal(a)
		})
		if n != nil {
			x.addInput(n)
			return true
		}
	}
	return false
}

// otherSigners makes an unlock of a multi address by other members than those who made the first.
func (x *mx) otherSigners(a *model.Addr, first *model.Unlock, at int) (model.Unlock, bool) {
	u := model.Unlock{Type: model.UnlMulti, Subs: make([]model.Unlock, len(a.Members))}
	had := func(k int) bool { return first.Subs[k].Type != model.UnlEmpty }
	sum, all := 0, x.R.Bool()
	for pass := 0; pass < 2; pass++ {
		for k := range u.Subs {
			if pass == 0 {
				u.Subs[k].Type = model.UnlEmpty
			}
			if had(k) != (pass == 1) || sum >= int(a.Threshold) && !all {
				continue
			}
			if had(k) {
				u.Subs[k] = first.Subs[k]
			} else if key := keyByAddr[a.Members[k].Addr.ID]; key != nil {
				u.Subs[k] = x.sigOf(key)
				for i := range x.d.Us[:at] {
					if x.d.Us[i].Type == model.UnlSignature && x.d.Us[i].Pub == key.Pub {
						u.Subs[k] = model.Unlock{Type: model.UnlReference, Ref: uint16(i)}
					}
				}
			} else {
				continue
			}
			sum += int(a.Members[k].Weight)
		}
	}
	for k := range u.Subs {
		if had(k) != (u.Subs[k].Type != model.UnlEmpty) {
			return u, true
		}
	}
	// the same members: one who was not needed stays away
	for k := range u.Subs {
		if had(k) && sum-int(a.Members[k].Weight) >= int(a.Threshold) {
			u.Subs[k] = model.Unlock{Type: model.UnlEmpty}
			return u, true
		}
	}
	return u, false
}

var moreMutators = []mutator{
	{"staking-destroy", ps("L08"), 0, func(x *mx) bool {
		// an account that stakes is destroyed, with a commitment around the end of its staking
		cs := x.w.commitList()
		if len(cs) == 0 || x.d.C == nil {
			return false
		}
		cs = cs[max(0, len(cs)-int(x.P.MaxCA)-1):]
		around := func(o *model.Output) (r []int) {
			st, bi := o.Feat(model.FStaking), o.Feat(model.FBlockIssuer)
			if st == nil || o.Kind != model.OutAccount {
				return nil
			}
			for i := range cs {
				e := x.P.Epoch(cs[i].Slot + x.P.MinCA)
				if (bi == nil || bi.Expiry < cs[i].Slot) && e+1 >= st.End && e <= st.End+1 {
					r = append(r, i)
					if e == st.End {
						r = append(r, i, i, i)
					}
				}
			}
			return r
		}
		c := x.in(func(o *model.Output) bool { return len(around(o)) > 0 })
		if c == nil {
			c = x.coin(func(c *Coin) bool { return len(around(c.O)) > 0 && c.Slot() <= x.t.CreationSlot })
			if c == nil || len(x.d.Coins) > 100 {
				return false
			}
			x.addInput(c)
		}
		x.setCommit(&cs[core.Pick(x.R, around(c.O))])
		if o := x.next(c); o != nil {
			x.dropOut(o)
		}
		x.setCap(model.CapDestAccount, true)
		x.reward(c, x.R.Pct(80))
		var h model.Hash
		copy(h[:], c.Chain()[1:])
		x.addCtx(model.CtxInput{Type: model.CtxBIC, AccountID: h})
		return len(x.t.Outputs) > 0
	}},
	{"foundry-mix", ps("L03"), 0, func(x *mx) bool {
		// New foundries of one or two accounts between other outputs, in order or not.
		moving := func(o *model.Output) bool {
			return o.Kind == model.OutAccount && x.prev(o) != nil && o.FoundryCounter < 1<<31
		}
		if len(x.outs(moving)) < 2 && len(x.d.Coins) < 100 && x.R.Pct(80) {
			c := x.coin(func(c *Coin) bool {
				return c.O.Kind == model.OutAccount && c.O.Feat(model.FBlockIssuer) == nil && c.O.Feat(model.FStaking) == nil && c.Slot() <= x.t.CreationSlot
			})
			if c != nil {
				x.addInput(c)
			}
		}
		as := x.outs(moving)
		if len(as) == 0 {
			return false
		}
		x.R.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
		var merged []*model.Output
		for k, a := range as[:min(len(as), 2)] {
			n := x.R.Range(1, 3-k)
			var own []*model.Output
			for i := 0; i < n; i++ {
				a.FoundryCounter++
				o := &model.Output{Kind: model.OutFoundry, Serial: a.FoundryCounter, Minted: new(big.Int), Melted: new(big.Int), MaxSupply: big.NewInt(5),
					UCs: []model.UC{{Type: model.UCImmAccount, Addr: &model.Addr{Kind: model.AddrAccount, ID: a.ID}}}}
				o.Amount = x.minAmount(o)
				own = append(own, o)
			}
			if n > 1 && x.R.Bool() {
				i := x.R.Intn(n - 1)
				own[i], own[i+1] = own[i+1], own[i]
			}
			merged = merge(x.R, merged, own)
		}
		x.t.Outputs = merge(x.R, x.t.Outputs, merged)
		return true
	}},
	{"ctx-none", ps("L07", "L08", "L09", "L14", "L05"), 0, func(x *mx) bool {
		// nothing of what the node knows is asked for
		if len(x.t.Ctx) == 0 {
			return false
		}
		x.d.C = nil
		x.t.Ctx = nil
		return true
	}},
	{"feature-gone-no-commit", ps("L07", "L08"), 0, func(x *mx) bool {
		c := x.in(func(o *model.Output) bool { return o.Kind == model.OutAccount && o.Feat(model.FBlockIssuer) != nil })
		if c == nil {
			return false
		}
		n := x.next(c)
		for _, o := range x.t.Outputs {
			if o.Kind == model.OutAccount {
				o.Feats = delFeat(delFeat(append([]model.Feat(nil), o.Feats...), model.FBlockIssuer), model.FStaking)
			}
		}
		if n != nil && x.R.Bool() {
			x.dropOut(n)
			x.setCap(model.CapDestAccount, true)
		}
		if len(x.t.Outputs) == 0 {
			return false
		}
		if x.R.Pct(70) {
			x.d.C, x.t.Ctx = nil, nil
		}
		return true
	}},
	{"multi-other-subset", ps("L04"), noSign, func(x *mx) bool {
		// the second input of a multi address comes with signers of its own
		ms := x.multiInputs()
		any := false
		for _, is := range ms {
			any = any || len(is) > 1
		}
		if !any && !x.again(func(a *model.Addr) bool { return a.Kind == model.AddrMulti }) {
			return false
		}
		x.rebase()
		x.remana()
		x.resignNow()
		for _, is := range x.multiInputs() {
			if len(is) < 2 {
				continue
			}
			i, j := is[0], is[1]
			if x.d.Us[i].Type != model.UnlMulti || x.d.Us[j].Type != model.UnlReference {
				continue
			}
			a := ownerOf(x.P, x.t, x.d.Coins[j], x.d.commitSlot())
			first := x.d.Us[i]
			if len(first.Subs) != len(a.Members) {
				continue
			}
			u, ok := x.otherSigners(a, &first, j)
			if !ok {
				continue
			}
			mode := x.R.Intn(4)
			x.d.Us[j] = u
			if mode == 3 {
				// the first input refers to the second
				x.d.Us[i], x.d.Us[j] = model.Unlock{Type: model.UnlReference, Ref: uint16(j)}, x.d.Us[i]
			}
			return true
		}
		return false
	}},
	{"ref-elsewhere", ps("L04"), noSign, func(x *mx) bool {
		// a reference that names an unlock other than the one that unlocked the address
		if !x.R.Pct(40) || !x.again(func(a *model.Addr) bool { return x.R.Bool() || a.Kind == model.AddrMulti }) {
			x.R.Bool()
		}
		x.rebase()
		x.remana()
		x.resignNow()
		s := x.needSig(func(u *model.Unlock, i int) bool {
			return i > 0 && (u.Type == model.UnlReference || u.Type == model.UnlAccount || u.Type == model.UnlAnchor || u.Type == model.UnlNFT)
		})
		if len(s) == 0 {
			return false
		}
		i := core.Pick(x.R, s)
		old := x.d.Us[i].Ref
		// preferably one a syntactic check is happy with
		var c []int
		for j := 0; j < i; j++ {
			if j == int(old) {
				continue
			}
			t := x.d.Us[j].Type
			if t == model.UnlSignature || t == model.UnlMulti || x.d.Us[i].Type != model.UnlReference {
				c = append(c, j)
			}
		}
		if len(c) == 0 {
			return false
		}
		x.d.Us[i].Ref = uint16(core.Pick(x.R, c))
		return true
	}},
	{"chain-unlock-for-key", ps("L04"), noSign, func(x *mx) bool {
		// the wrong kind of reference, to the right place
		x.resignNow()
		s := x.needSig(func(u *model.Unlock, i int) bool {
			return i > 0 && (u.Type == model.UnlReference || u.Type == model.UnlAccount || u.Type == model.UnlAnchor || u.Type == model.UnlNFT)
		})
		if len(s) == 0 {
			return false
		}
		i := core.Pick(x.R, s)
		ts := []byte{model.UnlReference, model.UnlAccount, model.UnlAnchor, model.UnlNFT}
		x.d.Us[i].Type = ts[x.R.Intn(4)]
		return true
	}},
	{"delegation-zero-validator", ps("L09", "L14"), 0, func(x *mx) bool {
		o := x.out(kind(model.OutDelegation))
		if o == nil {
			return false
		}
		o.Validator = &model.Addr{Kind: model.AddrAccount}
		return true
	}},
	{"implicit-owner", ps("L11", "L14"), 0, func(x *mx) bool {
		// every kind of output, owned by an implicit account creation address
		o := x.out(func(o *model.Output) bool { return o.Kind != model.OutFoundry && o.Kind != model.OutBasic })
		if o == nil {
			return false
		}
		u := &o.UCs[x.R.Intn(len(o.UCs))]
		if u.Addr == nil {
			return false
		}
		u.Addr = &model.Addr{Kind: model.AddrImplicit, ID: allKeys[x.R.Intn(x.B.Keys)].Addr}
		if x.R.Pct(60) {
			o.Mana = 0
		}
		x.raise(o)
		return true
	}},
	{"immutable-order", ps("L14"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool {
			return o.Kind == model.OutAccount || o.Kind == model.OutAnchor || o.Kind == model.OutNFT
		})
		if o == nil {
			return false
		}
		o.Imm = append([]model.Feat(nil), o.Imm...)
		switch {
		case len(o.Imm) > 1:
			if x.R.Bool() {
				o.Imm[0], o.Imm[1] = o.Imm[1], o.Imm[0]
			} else {
				o.Imm[1] = o.Imm[0]
			}
		case len(o.Imm) == 1:
			o.Imm = append(o.Imm, o.Imm[0])
		default:
			return false
		}
		x.raise(o)
		return true
	}},
	{"condition-twice", ps("L14"), 0, func(x *mx) bool {
		// kinds with room for one condition only, and anchors
		o := x.out(func(o *model.Output) bool { return o.Kind != model.OutBasic })
		if o == nil {
			return false
		}
		o.UCs = append([]model.UC(nil), o.UCs...)
		switch {
		case o.Kind == model.OutAnchor && x.R.Bool():
			o.UCs[0], o.UCs[1] = o.UCs[1], o.UCs[0]
		case o.Kind == model.OutAnchor:
			k := x.R.Intn(2)
			o.UCs[1-k] = o.UCs[k]
		default:
			o.UCs = append(o.UCs, o.UCs[0])
		}
		x.raise(o)
		return true
	}},
	{"allot-elsewhere", ps("L07", "L02"), noMana, func(x *mx) bool {
		// mana bound to an account by an allotment moves on to another account
		if len(x.t.Allotments) == 0 {
			return false
		}
		i := x.R.Intn(len(x.t.Allotments))
		a := x.t.Allotments[i]
		m := map[model.Hash]uint64{}
		for j, y := range x.t.Allotments {
			if j != i {
				m[y.AccountID] += y.Mana
			}
		}
		to := x.R.Hash()
		for _, c := range x.d.Coins {
			if k := c.Chain(); c.O.Kind == model.OutAccount && x.R.Bool() {
				copy(to[:], k[1:])
			}
		}
		part := a.Mana
		if x.R.Bool() && part > 1 {
			part = 1 + x.R.U64n(part)
		}
		m[to] += part
		if a.Mana > part {
			m[a.AccountID] += a.Mana - part
		}
		setAllot(x.t, m)
		return true
	}},
}

// raise lifts the amount of an output to its minimum deposit.
func (x *mx) raise(o *model.Output) { o.Amount = max(o.Amount, x.minAmount(o)) }

// merge mixes two lists and keeps the order of each.
func merge(r *core.RNG, a, b []*model.Output) (m []*model.Output) {
	for len(a)+len(b) > 0 {
		if r.Intn(len(a)+len(b)) < len(a) {
			m, a = append(m, a[0]), a[1:]
		} else {
			m, b = append(m, b[0]), b[1:]
		}
	}
	return m
}
