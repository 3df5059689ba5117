package ledger

import (
	"bytes"
	"math/big"
	"sort"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

// Commit is a committed slot.
type Commit struct {
	Slot uint32
	ID   model.ID36
}

// Draft is a transaction under construction together with everything needed to sign it.
type Draft struct {
	Tx    *model.Tx
	Coins []*Coin // inputs, in order
	C     *Commit // commitment input or nil
	Us    []model.Unlock
	fix   map[*model.Output]bool // outputs whose amount is not free
}

func (d *Draft) commitSlot() *uint32 {
	if d.C == nil {
		return nil
	}
	s := d.C.Slot
	return &s
}

// Planner builds transactions against the reference ledger.
type Planner struct {
	P    *model.Params
	S    *State
	R    *core.RNG
	B    *Bias
	Now  uint32 // slot in which the block will be issued
	C    *Commit
	Env  Env
	ins  []*Coin
	act  map[string]string // chain ID to what happens to it
	busy map[string]bool
	must *Coin
}

// Env answers what nodes would resolve.
type Env interface {
	BIC(acc model.Hash, commit uint32) int64
	Reward(chain string, commit uint32) uint64
}

func (pl *Planner) has(c *Coin) bool {
	for _, x := range pl.ins {
		if x == c {
			return true
		}
	}
	return false
}

// usable tells whether the coin's locks allow spending it now.
func (pl *Planner) usable(c *Coin) bool {
	if l := c.O.UC(model.UCTimelock); l != nil && (pl.C == nil || pl.C.Slot+pl.P.MinCA < l.Slot) {
		return false
	}
	if e := c.O.UC(model.UCExpiration); e != nil {
		if pl.C == nil {
			return false
		}
		if pl.C.Slot+pl.P.MinCA < e.Slot && pl.C.Slot+pl.P.MaxCA >= e.Slot {
			return false
		}
	}
	return c.Slot() <= pl.Now
}

// need makes sure the address can be unlocked, adding inputs as necessary.
func (pl *Planner) need(a *model.Addr, depth int) bool {
	a = a.Resolve()
	switch {
	case a.IsDirect():
		return keyByAddr[a.ID] != nil
	case a.IsChain():
		pre := map[byte]string{model.AddrAccount: "A", model.AddrAnchor: "R", model.AddrNFT: "N"}[a.Kind]
		id := pre + string(a.ID[:])
		c := pl.S.Chains[id]
		if c == nil || c.O.IsImplicit() || pl.busy[id] {
			return false
		}
		if a.Kind == model.AddrAnchor {
			if x := pl.act[id]; x != "" && x != "state" {
				return false
			}
			pl.act[id] = "state"
		}
		return pl.take(c, depth+1)
	}
	sum := 0
	order := make([]int, len(a.Members))
	for i := range order {
		order[i] = i
	}
	pl.R.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	sort.SliceStable(order, func(i, j int) bool {
		return a.Members[order[i]].Addr.IsDirect() && !a.Members[order[j]].Addr.IsDirect()
	})
	if pl.R.Pct(30) {
		pl.R.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	for _, i := range order {
		if sum >= int(a.Threshold) {
			break
		}
		m := a.Members[i]
		if m.Addr.IsDirect() || depth < 3 {
			if pl.need(m.Addr, depth+1) {
				sum += int(m.Weight)
			}
		}
	}
	return sum >= int(a.Threshold)
}

// take adds a coin as input if it can be unlocked.
func (pl *Planner) take(c *Coin, depth int) bool {
	if pl.has(c) {
		return true
	}
	if depth > 5 || !pl.usable(c) || len(pl.ins) > 10 {
		return false
	}
	n := len(pl.ins)
	id := c.Chain()
	if id != "" {
		if pl.busy[id] {
			return false
		}
		pl.busy[id] = true
		defer delete(pl.busy, id)
	}
	acts := map[string]string{}
	for k, v := range pl.act {
		acts[k] = v
	}
	if c.O.Kind == model.OutAnchor && pl.act[id] == "" {
		pl.act[id] = core.Pick(pl.R, []string{"state", "state", "gov", "destroy"})
		if pl.act[id] == "destroy" && !pl.R.Pct(pl.B.Destroy*2) {
			pl.act[id] = "gov"
		}
	}
	var a *model.Addr
	switch c.O.Kind {
	case model.OutAnchor:
		if pl.act[id] == "state" {
			a = c.O.UC(model.UCStateCtrl).Addr
		} else {
			a = c.O.UC(model.UCGovernor).Addr
		}
	case model.OutFoundry:
		a = c.O.UC(model.UCImmAccount).Addr
	default:
		a = c.O.UC(model.UCAddress).Addr
		if e := c.O.UC(model.UCExpiration); e != nil && pl.C.Slot+pl.P.MinCA >= e.Slot {
			a = e.Addr
		}
	}
	if !pl.need(a, depth) {
		pl.ins = pl.ins[:n]
		pl.act = acts
		return false
	}
	if !pl.has(c) {
		pl.ins = append(pl.ins, c)
	}
	return true
}

func inClass(o *model.Output) int {
	if o.IsImplicit() {
		return 6
	}
	return int(o.Kind)
}

// Plan builds a transaction that is meant to be valid. Nil if that did not work out.
func (pl *Planner) Plan() *Draft {
	r, b, p := pl.R, pl.B, pl.P
	pl.act, pl.busy, pl.ins = map[string]string{}, map[string]bool{}, nil
	all := pl.S.List()
	if pl.must != nil && !pl.take(pl.must, 0) {
		pl.must = nil
	}
	want := r.Range(1, b.Ins)
	for try := 0; len(pl.ins) < want && try < 12; try++ {
		w := make([]int, len(all))
		tot := 0
		for i, c := range all {
			w[i] = b.In[inClass(c.O)]
			tot += w[i]
		}
		if tot == 0 {
			break
		}
		pl.take(all[r.Weighted(w...)], 0)
	}
	if len(pl.ins) == 0 {
		return nil
	}
	// at most one implicit account
	imp := 0
	for _, c := range pl.ins {
		if c.O.IsImplicit() {
			imp++
		}
	}
	if imp > 1 {
		return nil
	}

	d := &Draft{Tx: &model.Tx{NetworkID: p.NetworkID()}, C: pl.C, fix: map[*model.Output]bool{}}
	t := d.Tx
	t.CreationSlot = pl.Now
	lo := uint32(0)
	for _, c := range pl.ins {
		lo = max(lo, c.Slot())
	}
	if r.Pct(40) && lo <= pl.Now {
		t.CreationSlot = pl.Now - uint32(r.Intn(int(min(pl.Now-lo, 20))+1))
		if r.Pct(20) {
			t.CreationSlot = lo
		}
	}
	if !pl.order(d) {
		return nil
	}
	if r.Pct(15) {
		t.Payload = &model.Tagged{Tag: r.Bytes(r.Intn(8)), Data: r.Bytes(r.Intn(20))}
	}
	caps := map[int]bool{}
	rewards := map[int]bool{}
	bic := map[model.Hash]bool{}
	foundries := map[model.Hash]bool{} // accounts that are transitioned

	nt := map[model.OutputID]*big.Int{}
	addNT := func(id model.OutputID, x *big.Int) {
		if nt[id] == nil {
			nt[id] = new(big.Int)
		}
		nt[id].Add(nt[id], x)
	}
	sdr := map[string]uint64{}
	sdrAddr := map[string]*model.Addr{}
	for _, c := range d.Coins {
		if f := c.O.Feat(model.FNativeToken); f != nil {
			addNT(f.NTID, f.NTAmount)
		}
		if u := c.O.UC(model.UCSDR); u != nil {
			// the return address spends it itself: nothing to return
			own := ownerOf(p, t, c, d.commitSlot())
			if own.Equal(u.Addr) {
				continue
			}
			k := u.Addr.Key()
			if sdr[k]+u.Amount < sdr[k] {
				return nil
			}
			sdr[k] += u.Amount
			sdrAddr[k] = u.Addr
		}
	}

	past, future := uint32(0), uint32(0)
	if pl.C != nil {
		past, future = pl.C.Slot+p.MaxCA, pl.C.Slot+p.MinCA
	}
	var frozenAmt []*model.Output
	type mintee struct{ in, out *model.Output }
	var mints []mintee
	for i, c := range d.Coins {
		o := c.O
		if !o.IsChain() && !o.IsImplicit() {
			continue
		}
		id := c.Chain()
		n := model.CloneOutput(o)
		if o.Kind != model.OutFoundry && !o.IsImplicit() {
			copy(n.ID[:], id[1:])
		}
		destroy := r.Pct(b.Destroy)
		switch {
		case o.IsImplicit():
			if pl.C == nil {
				return nil
			}
			h := model.Blake(c.ID[:])
			bic[h] = true
			exp := r.Near32(past + uint32(r.Intn(10)))
			if exp < past {
				exp = past
			}
			n = &model.Output{Kind: model.OutAccount, ID: h, Amount: o.Amount,
				UCs:   []model.UC{{Type: model.UCAddress, Addr: pl.addrFor(model.ACapAccount, model.ACapMana)}},
				Feats: []model.Feat{{Type: model.FBlockIssuer, Expiry: exp, Keys: pl.keys()}}}
			if r.Pct(b.Staking) {
				e := p.Epoch(past)
				n.Feats = append(n.Feats, model.Feat{Type: model.FStaking, Staked: r.U64n(n.Amount / 2), FixedCost: r.U64n(1000), Start: e, End: e + p.Unbonding + uint32(r.Intn(2))})
			}
			if r.Pct(10) {
				n.FoundryCounter = uint32(r.Intn(5))
			}
		case o.Kind == model.OutAccount:
			var h model.Hash
			copy(h[:], id[1:])
			bi, st := o.Feat(model.FBlockIssuer), o.Feat(model.FStaking)
			if bi != nil {
				if pl.C == nil {
					return nil
				}
				bic[h] = true
			}
			if st != nil && pl.C == nil {
				return nil
			}
			biExp := bi == nil || pl.C != nil && bi.Expiry < pl.C.Slot
			stExp := st == nil || p.Epoch(future) > st.End
			owns := false
			for _, x := range d.Coins {
				if x != c && (x.O.Kind == model.OutFoundry && x.O.UC(model.UCImmAccount).Addr.ID == h) {
					owns = true
				}
			}
			if destroy && biExp && stExp && (!owns || r.Pct(30)) {
				caps[model.CapDestAccount] = true
				if st != nil {
					rewards[i] = true
				}
				continue
			}
			foundries[h] = true
			if r.Pct(25) {
				n.UCs[0].Addr = pl.addrFor(model.ACapAccount, model.ACapMana)
			}
			// features
			if bi != nil {
				nb := n.Feat(model.FBlockIssuer)
				switch {
				case biExp && (r.Pct(40) && st == nil):
					n.Feats = delFeat(n.Feats, model.FBlockIssuer)
				case biExp || r.Pct(40):
					nb.Expiry = past + uint32(r.Weighted(60, 20, 20)*r.Intn(12))
					if r.Pct(20) {
						nb.Keys = pl.keys()
					}
				case r.Pct(30):
					nb.Keys = pl.keys()
				}
			} else if pl.C != nil && r.Pct(b.IssuerFeat) {
				n.Feats = addFeat(n.Feats, model.Feat{Type: model.FBlockIssuer, Expiry: past + uint32(r.Intn(3)*r.Intn(12)), Keys: pl.keys()})
			}
			hasBI := n.Feat(model.FBlockIssuer) != nil
			e := p.Epoch(past)
			newSt := func() model.Feat {
				return model.Feat{Type: model.FStaking, Staked: r.U64n(n.Amount / 2), FixedCost: r.U64n(1000), Start: e, End: e + p.Unbonding + uint32(r.Intn(2)*r.Intn(3))}
			}
			if st != nil {
				ns := n.Feat(model.FStaking)
				switch {
				case !hasBI && !stExp:
					return nil
				case !hasBI || stExp && r.Pct(50):
					n.Feats = delFeat(n.Feats, model.FStaking)
					rewards[i] = true
				case stExp && r.Pct(40):
					n.Feats = delFeat(n.Feats, model.FStaking)
					n.Feats = addFeat(n.Feats, newSt())
					x := n.Feat(model.FStaking)
					if x.Staked != st.Staked || x.FixedCost != st.FixedCost || x.Start != st.Start || x.End != st.End {
						rewards[i] = true
					}
				case !stExp && r.Pct(50):
					end := e + p.Unbonding + uint32(r.Intn(2)*r.Intn(3))
					if end > ns.End || r.Pct(30) {
						ns.End = end
					}
				}
			} else if hasBI && pl.C != nil && r.Pct(b.Staking) {
				n.Feats = addFeat(n.Feats, newSt())
			}
			pl.editFeats(n)
		case o.Kind == model.OutAnchor:
			switch pl.act[id] {
			case "destroy":
				caps[model.CapDestAnchor] = true
				continue
			case "gov":
				if r.Pct(50) {
					n.UCs[r.Intn(2)].Addr = pl.addrFor(model.ACapAnchor, model.ACapMana)
				}
				if r.Pct(40) {
					n.Feats = delFeat(n.Feats, model.FMetadata)
					if r.Bool() {
						n.Feats = addFeat(n.Feats, pl.meta(model.FMetadata))
					}
				}
				frozenAmt = append(frozenAmt, n)
			default:
				n.StateIndex++
				if r.Pct(40) {
					n.Feats = delFeat(n.Feats, model.FStateMetadata)
					if r.Bool() {
						n.Feats = addFeat(n.Feats, pl.meta(model.FStateMetadata))
					}
				}
			}
		case o.Kind == model.OutNFT:
			if destroy {
				caps[model.CapDestNFT] = true
				continue
			}
			n.UCs = pl.ucs(model.OutNFT, nil)
			pl.editFeats(n)
		case o.Kind == model.OutDelegation:
			if pl.C == nil {
				return nil
			}
			if o.ID != (model.Hash{}) || r.Bool() {
				rewards[i] = true
				continue
			}
			n.End = p.Epoch(future)
			if future > p.Registration(n.End) {
				n.End++
			}
			if r.Pct(20) {
				n.UCs[0].Addr = pl.addrFor(model.ACapDelegation)
			}
		case o.Kind == model.OutFoundry:
			fid := o.FoundryID()
			if destroy {
				circ := new(big.Int).Sub(o.Minted, o.Melted)
				have := new(big.Int)
				if nt[fid] != nil {
					have = nt[fid]
				}
				if have.Cmp(circ) == 0 {
					caps[model.CapDestFoundry] = true
					delete(nt, fid)
					continue
				}
			}
			n.Feats = delFeat(n.Feats, model.FNativeToken)
			if r.Pct(b.Meta) {
				n.Feats = delFeat(n.Feats, model.FMetadata)
				n.Feats = addFeat(n.Feats, pl.meta(model.FMetadata))
			}
			mints = append(mints, mintee{o, n})
		}
		t.Outputs = append(t.Outputs, n)
	}
	for _, m := range mints {
		fid := m.out.FoundryID()
		have := new(big.Int)
		if nt[fid] != nil {
			have = nt[fid]
		}
		switch r.Intn(4) {
		case 0, 1: // mint
			room := new(big.Int).Sub(m.in.MaxSupply, new(big.Int).Sub(m.in.Minted, m.in.Melted))
			x := pl.bigUpTo(room)
			m.out.Minted.Add(m.out.Minted, x)
			addNT(fid, x)
		case 2: // melt
			x := pl.bigUpTo(have)
			m.out.Melted.Add(m.out.Melted, x)
			addNT(fid, new(big.Int).Neg(x))
		}
		if m.out.Minted.BitLen() > 256 || m.out.Melted.BitLen() > 256 {
			return nil
		}
	}

	// new outputs
	k := r.Intn(b.NewOuts + 1)
	for j := 0; j < k; j++ {
		o := pl.newOutput(foundries, t, addNT)
		if o != nil {
			t.Outputs = append(t.Outputs, o)
		}
	}
	for _, key := range core.SortedKeys(sdr) {
		left := sdr[key]
		for parts := 0; left > 0; parts++ {
			m, _ := p.MinReturn(sdrAddr[key])
			x := left
			if parts == 0 && r.Pct(20) && left > 2*m+2 {
				x = m + r.U64n(left-2*m)
			}
			o := &model.Output{Kind: model.OutBasic, Amount: x, UCs: []model.UC{{Type: model.UCAddress, Addr: sdrAddr[key]}}}
			d.fix[o] = true
			t.Outputs = append(t.Outputs, o)
			left -= x
		}
	}

	// native tokens
	var ids []model.OutputID
	for id := range nt {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
	for _, id := range ids {
		left := nt[id]
		isFoundryHere := false
		for _, o := range t.Outputs {
			if o.Kind == model.OutFoundry && o.FoundryID() == id {
				isFoundryHere = true
				if left.Sign() > 0 && r.Pct(30) {
					x := pl.bigUpTo(left)
					if x.Sign() > 0 {
						o.Feats = addFeat(o.Feats, model.Feat{Type: model.FNativeToken, NTID: id, NTAmount: x})
						left = new(big.Int).Sub(left, x)
					}
				}
			}
		}
		for left.Sign() > 0 {
			if !isFoundryHere && r.Pct(b.Burn/2) {
				caps[model.CapBurnNT] = true
				break
			}
			x := left
			if r.Pct(30) {
				x = pl.bigUpTo(left)
				if x.Sign() == 0 {
					x = left
				}
			}
			f := model.Feat{Type: model.FNativeToken, NTID: id, NTAmount: new(big.Int).Set(x)}
			var cand []*model.Output
			for _, o := range t.Outputs {
				if o.Kind == model.OutBasic && o.Feat(model.FNativeToken) == nil && !d.fix[o] && capAll(o, model.ACapNT) {
					cand = append(cand, o)
				}
			}
			if len(cand) > 0 && r.Pct(60) {
				o := core.Pick(r, cand)
				o.Feats = addFeat(o.Feats, f)
			} else {
				o := &model.Output{Kind: model.OutBasic, UCs: []model.UC{{Type: model.UCAddress, Addr: pl.addrFor(model.ACapNT, model.ACapMana)}}, Feats: []model.Feat{f}}
				t.Outputs = append(t.Outputs, o)
			}
			left = new(big.Int).Sub(left, x)
		}
	}
	for _, o := range frozenAmt {
		d.fix[o] = true
	}

	// senders and issuers
	var un []*model.Addr
	for _, c := range d.Coins {
		un = append(un, ownerOf(p, t, c, d.commitSlot()))
		if a := c.O.ChainAddr(c.ID); a != nil && (c.O.Kind != model.OutAnchor || pl.act[c.Chain()] == "state") {
			un = append(un, a)
		}
	}
	wrap := func(a *model.Addr) *model.Addr {
		if a.Kind != model.AddrImplicit && r.Pct(15) {
			return &model.Addr{Kind: model.AddrRestricted, Inner: a, Caps: genCaps(r)}
		}
		return a
	}
	for _, o := range t.Outputs {
		if d.fix[o] && o.Kind == model.OutBasic {
			continue
		}
		switch o.Kind {
		case model.OutBasic, model.OutAccount, model.OutNFT:
			if o.Feat(model.FSender) != nil {
				o.Feats = delFeat(o.Feats, model.FSender)
			}
			if r.Pct(b.Sender) {
				o.Feats = addFeat(o.Feats, model.Feat{Type: model.FSender, Addr: wrap(core.Pick(r, un))})
			}
		}
		if (o.Kind == model.OutAccount || o.Kind == model.OutAnchor || o.Kind == model.OutNFT) && o.ID == (model.Hash{}) && r.Pct(b.Issuer) {
			o.Imm = addFeat(o.Imm, model.Feat{Type: model.FIssuer, Addr: wrap(core.Pick(r, un))})
		}
	}

	// shuffle the outputs; new foundries of one account stay in serial order
	r.Shuffle(len(t.Outputs), func(i, j int) { t.Outputs[i], t.Outputs[j] = t.Outputs[j], t.Outputs[i] })
	pl.fixSerials(t, d)

	if !pl.amounts(d) {
		return nil
	}
	// context
	if d.C != nil {
		t.Ctx = append(t.Ctx, model.CtxInput{Type: model.CtxCommitment, Commit: d.C.ID})
	} else {
		for _, o := range t.Outputs {
			if o.Kind == model.OutDelegation || o.Kind == model.OutAccount && (o.Feat(model.FBlockIssuer) != nil || o.Feat(model.FStaking) != nil) {
				return nil
			}
		}
	}
	var hs []model.Hash
	for h := range bic {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return bytes.Compare(hs[i][:], hs[j][:]) < 0 })
	for _, h := range hs {
		t.Ctx = append(t.Ctx, model.CtxInput{Type: model.CtxBIC, AccountID: h})
	}
	for i := range d.Coins {
		if rewards[i] {
			t.Ctx = append(t.Ctx, model.CtxInput{Type: model.CtxReward, Index: uint16(i)})
		}
	}
	if r.Pct(10) {
		caps[r.Intn(6)] = true
	}
	burn := r.Pct(b.Burn)
	if burn {
		caps[model.CapBurnMana] = true
	}
	setCaps := func() {
		var cs []int
		for c := 0; c < 8; c++ {
			if caps[c] {
				cs = append(cs, c)
			}
		}
		t.Caps = model.SetBits(cs...)
	}
	setCaps()
	if left := pl.mana(d, burn); left {
		caps[model.CapBurnMana] = true
		setCaps()
	}
	pl.Resign(d)
	return d
}

// order sorts the inputs so that every unlock refers to an earlier input.
func (pl *Planner) order(d *Draft) bool {
	r := pl.R
	left := append([]*Coin(nil), pl.ins...)
	r.Shuffle(len(left), func(i, j int) { left[i], left[j] = left[j], left[i] })
	done := map[string]bool{}
	// the state transitions are not in the outputs yet
	own := func(c *Coin) *model.Addr {
		if c.O.Kind == model.OutAnchor {
			if pl.act[c.Chain()] == "state" {
				return c.O.UC(model.UCStateCtrl).Addr.Resolve()
			}
			return c.O.UC(model.UCGovernor).Addr.Resolve()
		}
		return ownerOf(pl.P, d.Tx, c, d.commitSlot())
	}
	ready := func(a *model.Addr) bool {
		switch {
		case a.IsDirect():
			return true
		case a.IsChain():
			return done[a.Key()]
		}
		sum := 0
		for _, m := range a.Members {
			if m.Addr.IsDirect() && keyByAddr[m.Addr.ID] != nil || done[m.Addr.Key()] {
				sum += int(m.Weight)
			}
		}
		return sum >= int(a.Threshold)
	}
	for len(left) > 0 {
		pick := -1
		for pass := 0; pass < 3 && pick < 0; pass++ {
			for i, c := range left {
				a := own(c)
				direct := a.IsDirect()
				if pass == 0 && !direct || pass == 1 && a.Kind == model.AddrMulti {
					continue
				}
				if ready(a) {
					pick = i
					break
				}
			}
			if pass == 0 && pick >= 0 && r.Pct(20) && len(left) > 1 {
				// sometimes something else first
				for i, c := range left {
					if a := own(c); a.IsChain() && ready(a) {
						pick = i
					}
				}
			}
		}
		if pick < 0 {
			return false
		}
		c := left[pick]
		left = append(left[:pick], left[pick+1:]...)
		d.Coins = append(d.Coins, c)
		d.Tx.Inputs = append(d.Tx.Inputs, c.ID)
		if a := c.O.ChainAddr(c.ID); a != nil && (c.O.Kind != model.OutAnchor || pl.act[c.Chain()] == "state") {
			done[a.Key()] = true
		}
	}
	return true
}

func delFeat(fs []model.Feat, t byte) []model.Feat {
	var r []model.Feat
	for _, f := range fs {
		if f.Type != t {
			r = append(r, f)
		}
	}
	return r
}

func addFeat(fs []model.Feat, f model.Feat) []model.Feat {
	r := append(delFeat(fs, f.Type), f)
	sort.SliceStable(r, func(i, j int) bool { return r[i].Type < r[j].Type })
	return r
}

func capAll(o *model.Output, n int) bool {
	for _, u := range o.UCs {
		if u.Addr != nil && (u.Type == model.UCAddress || u.Type == model.UCStateCtrl || u.Type == model.UCGovernor || u.Type == model.UCExpiration) && !u.Addr.Cap(n) {
			return false
		}
	}
	return true
}

// addrFor draws an address that accepts the given things (mostly).
func (pl *Planner) addrFor(caps ...int) *model.Addr {
	for i := 0; i < 6; i++ {
		a := pl.S.GenAddr(pl.R, pl.B, 0)
		ok := true
		for _, c := range caps {
			ok = ok && a.Cap(c)
		}
		if ok {
			return a
		}
	}
	return edAddr(allKeys[pl.R.Intn(pl.B.Keys)])
}

func (pl *Planner) keys() []model.Hash {
	n := 1 + pl.R.Intn(2)*pl.R.Intn(3)
	if pl.R.Pct(2) {
		n = pl.R.Range(1, 20)
	}
	var hs []model.Hash
	for i := 0; i < n; i++ {
		hs = append(hs, pl.R.Hash())
	}
	sort.Slice(hs, func(i, j int) bool { return bytes.Compare(hs[i][:], hs[j][:]) < 0 })
	return hs
}

func (pl *Planner) meta(t byte) model.Feat {
	r := pl.R
	f := model.Feat{Type: t}
	n := r.Range(1, 3)
	keys := map[string]bool{}
	for i := 0; i < n; i++ {
		l := r.Range(1, 6)
		s := make([]byte, l)
		for j := range s {
			s[j] = byte(r.Range(33, 126))
		}
		keys[string(s)] = true
	}
	for _, k := range core.SortedKeys(keys) {
		v := r.Bytes(r.Intn(12))
		if r.Pct(2) {
			v = r.Bytes(r.Intn(2500))
		}
		f.Entries = append(f.Entries, model.Entry{Key: k, Value: v})
	}
	sort.SliceStable(f.Entries, func(i, j int) bool {
		a, b := f.Entries[i], f.Entries[j]
		if len(a.Key) != len(b.Key) {
			return len(a.Key) < len(b.Key)
		}
		return a.Key < b.Key
	})
	return f
}

func (pl *Planner) bigUpTo(x *big.Int) *big.Int {
	r := pl.R
	if x.Sign() <= 0 {
		return new(big.Int)
	}
	switch r.Intn(5) {
	case 0:
		return new(big.Int).Set(x)
	case 1:
		return big.NewInt(1)
	}
	v := new(big.Int).SetBytes(r.Bytes(r.Range(1, 32)))
	return v.Mod(v, new(big.Int).Add(x, big.NewInt(1)))
}

// editFeats changes the features any owner can change.
func (pl *Planner) editFeats(o *model.Output) {
	r, b := pl.R, pl.B
	if r.Pct(b.Meta) {
		o.Feats = addFeat(o.Feats, pl.meta(model.FMetadata))
	} else if r.Pct(10) {
		o.Feats = delFeat(o.Feats, model.FMetadata)
	}
	if o.Kind == model.OutBasic || o.Kind == model.OutNFT {
		if r.Pct(b.Tag) {
			n := r.Range(1, 8)
			if r.Pct(5) {
				n = 64
			}
			o.Feats = addFeat(o.Feats, model.Feat{Type: model.FTag, Tag: r.Bytes(n)})
		}
	}
}

// slotNear draws a slot for a lock so that it matters soon.
func (pl *Planner) slotNear() uint32 {
	r, p := pl.R, pl.P
	base := pl.Now
	if pl.C != nil {
		base = core.Pick(r, []uint32{pl.C.Slot + p.MinCA, pl.C.Slot + p.MaxCA, pl.C.Slot + 2*p.MaxCA, pl.Now})
	}
	s := r.Near32(base + uint32(r.Intn(2)*r.Intn(8)))
	if r.Pct(3) {
		s = core.Pick(r, []uint32{1, ^uint32(0), ^uint32(0) - p.MaxCA, ^uint32(0) - p.MinCA})
	}
	if s == 0 {
		s = 1
	}
	return s
}

// ucs draws unlock conditions for a basic or NFT output.
func (pl *Planner) ucs(kind byte, owner *model.Addr) []model.UC {
	r, b := pl.R, pl.B
	tl, ex, sd := r.Pct(b.Timelock), r.Pct(b.Expire), r.Pct(b.SDR)
	var need []int
	if kind == model.OutNFT {
		need = append(need, model.ACapNFT)
	}
	if tl {
		need = append(need, model.ACapTimelock)
	}
	if ex {
		need = append(need, model.ACapExpiration)
	}
	if sd {
		need = append(need, model.ACapSDR)
	}
	if r.Pct(60) {
		need = append(need, model.ACapMana)
	}
	if owner == nil {
		owner = pl.addrFor(need...)
	}
	us := []model.UC{{Type: model.UCAddress, Addr: owner}}
	if sd {
		u := model.UC{Type: model.UCSDR, Addr: pl.S.GenAddr(r, b, 0)}
		m, _ := pl.P.MinReturn(u.Addr)
		u.Amount = m
		if !r.Pct(b.Exact) {
			u.Amount += r.U64n(1000)
		}
		if u.Amount == 0 && r.Bool() {
			u.Amount = 1
		}
		us = append(us, u)
	}
	if tl {
		us = append(us, model.UC{Type: model.UCTimelock, Slot: pl.slotNear()})
	}
	if ex {
		us = append(us, model.UC{Type: model.UCExpiration, Addr: pl.addrFor(need...), Slot: pl.slotNear()})
	}
	return us
}

func sortedHashes(m map[model.Hash]bool) []model.Hash {
	var hs []model.Hash
	for h := range m {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return bytes.Compare(hs[i][:], hs[j][:]) < 0 })
	return hs
}

func (pl *Planner) newOutput(accounts map[model.Hash]bool, t *model.Tx, addNT func(model.OutputID, *big.Int)) *model.Output {
	r, b, p := pl.R, pl.B, pl.P
	kind := r.Weighted(b.Kinds[:]...)
	past := uint32(0)
	if pl.C != nil {
		past = pl.C.Slot + p.MaxCA
	}
	switch kind {
	case 0:
		o := &model.Output{Kind: model.OutBasic, UCs: pl.ucs(model.OutBasic, nil)}
		if hs := sortedHashes(accounts); len(hs) > 0 && r.Pct(b.Manalock) {
			// locked for an account that is spent, for about as long as its mana has to be
			s := core.Pick(r, []uint32{t.CreationSlot, past - p.MaxCA}) + core.Pick(r, []uint32{1, 2, 2, 2})*p.MaxCA
			s = core.Pick(r, []uint32{s + uint32(r.Range(-1, 2)), s + uint32(r.Intn(int(p.MaxCA)+2))})
			o.UCs = []model.UC{{Type: model.UCAddress, Addr: &model.Addr{Kind: model.AddrAccount, ID: core.Pick(r, hs)}}, {Type: model.UCTimelock, Slot: max(s, 1)}}
		}
		pl.editFeats(o)
		return o
	case 1:
		o := &model.Output{Kind: model.OutAccount, UCs: []model.UC{{Type: model.UCAddress, Addr: pl.addrFor(model.ACapAccount)}}}
		pl.editFeats(o)
		if pl.C != nil && r.Pct(b.IssuerFeat) {
			o.Feats = addFeat(o.Feats, model.Feat{Type: model.FBlockIssuer, Expiry: past + uint32(r.Intn(2)*r.Intn(10)), Keys: pl.keys()})
			if r.Pct(b.Staking) {
				e := p.Epoch(past)
				o.Feats = addFeat(o.Feats, model.Feat{Type: model.FStaking, Staked: r.U64n(1000), FixedCost: r.U64n(1000), Start: e, End: e + p.Unbonding + uint32(r.Intn(2)*r.Intn(3))})
			}
		}
		if r.Pct(b.Meta) {
			o.Imm = addFeat(o.Imm, pl.meta(model.FMetadata))
		}
		return o
	case 2:
		o := &model.Output{Kind: model.OutAnchor, UCs: []model.UC{
			{Type: model.UCStateCtrl, Addr: pl.addrFor(model.ACapAnchor)}, {Type: model.UCGovernor, Addr: pl.addrFor(model.ACapAnchor)}}}
		if r.Pct(b.Meta) {
			o.Feats = addFeat(o.Feats, pl.meta(model.FMetadata))
		}
		if r.Pct(b.Meta) {
			o.Feats = addFeat(o.Feats, pl.meta(model.FStateMetadata))
		}
		if r.Pct(b.Meta) {
			o.Imm = addFeat(o.Imm, pl.meta(model.FMetadata))
		}
		return o
	case 3:
		hs := sortedHashes(accounts)
		if len(hs) == 0 {
			return nil
		}
		h := core.Pick(r, hs)
		for _, a := range t.Outputs {
			if a.Kind == model.OutAccount && a.ID == h {
				a.FoundryCounter++
				o := &model.Output{Kind: model.OutFoundry, Serial: a.FoundryCounter, Minted: new(big.Int), Melted: new(big.Int), MaxSupply: big.NewInt(int64(r.Range(1, 1000))),
					UCs: []model.UC{{Type: model.UCImmAccount, Addr: &model.Addr{Kind: model.AddrAccount, ID: h}}}}
				if r.Pct(40) {
					o.MaxSupply = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
				}
				o.Minted = pl.bigUpTo(o.MaxSupply)
				if r.Pct(30) {
					o.Minted = new(big.Int)
				}
				if o.Minted.Sign() > 0 {
					addNT(o.FoundryID(), o.Minted)
				}
				if r.Pct(b.Meta) {
					o.Imm = addFeat(o.Imm, pl.meta(model.FMetadata))
				}
				return o
			}
		}
		return nil
	case 4:
		o := &model.Output{Kind: model.OutNFT, UCs: pl.ucs(model.OutNFT, nil)}
		pl.editFeats(o)
		if r.Pct(b.Meta) {
			o.Imm = addFeat(o.Imm, pl.meta(model.FMetadata))
		}
		return o
	case 5:
		if pl.C == nil {
			return nil
		}
		v := r.Hash()
		for _, a := range pl.S.chainAddrs() {
			if a.Kind == model.AddrAccount && r.Pct(50) {
				v = a.ID
			}
		}
		e := p.Epoch(past)
		st := e + 1
		if past > p.Registration(e) {
			st = e + 2
		}
		return &model.Output{Kind: model.OutDelegation, Validator: &model.Addr{Kind: model.AddrAccount, ID: v}, Start: st,
			UCs: []model.UC{{Type: model.UCAddress, Addr: pl.addrFor(model.ACapDelegation)}}}
	}
	return &model.Output{Kind: model.OutBasic, UCs: []model.UC{{Type: model.UCAddress, Addr: &model.Addr{Kind: model.AddrImplicit, ID: allKeys[r.Intn(b.Keys)].Addr}}}}
}

// fixSerials puts new foundries of an account in serial order.
func (pl *Planner) fixSerials(t *model.Tx, d *Draft) {
	old := map[model.OutputID]bool{}
	for _, c := range d.Coins {
		if c.O.Kind == model.OutFoundry {
			old[c.O.FoundryID()] = true
		}
	}
	var at []int
	for i, o := range t.Outputs {
		if o.Kind == model.OutFoundry && !old[o.FoundryID()] {
			at = append(at, i)
		}
	}
	fs := make([]*model.Output, len(at))
	for i, x := range at {
		fs[i] = t.Outputs[x]
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].Serial < fs[j].Serial })
	for i, x := range at {
		t.Outputs[x] = fs[i]
	}
}

func (pl *Planner) minAmount(o *model.Output) uint64 {
	m, ok := pl.P.MinDeposit(o)
	if !ok {
		return ^uint64(0) >> 2
	}
	if u := o.UC(model.UCSDR); u != nil {
		m = max(m, u.Amount)
	}
	if f := o.Feat(model.FStaking); f != nil {
		m = max(m, f.Staked)
	}
	return max(m, 1)
}

// amounts balances the base tokens.
func (pl *Planner) amounts(d *Draft) bool {
	r, t := pl.R, d.Tx
	in := uint64(0)
	for _, c := range d.Coins {
		in += c.O.Amount
	}
	var free []*model.Output
	sum := uint64(0)
	for _, o := range t.Outputs {
		if d.fix[o] {
			sum += o.Amount
			continue
		}
		m := pl.minAmount(o)
		if !o.IsChain() || o.Amount < m || r.Pct(40) {
			o.Amount = m
		}
		sum += o.Amount
		if sum > 1<<62 {
			return false
		}
		free = append(free, o)
	}
	for tries := 0; sum > in; tries++ {
		// take from outputs above their minimum, then fund with another input
		for _, o := range free {
			if m := pl.minAmount(o); sum > in && o.Amount > m {
				x := min(o.Amount-m, sum-in)
				o.Amount -= x
				sum -= x
			}
		}
		if sum <= in {
			break
		}
		if tries > 3 || !pl.fund(d, &in) {
			return false
		}
	}
	if rest := in - sum; rest > 0 {
		var big *model.Output
		if len(free) > 0 && r.Pct(30) {
			big = core.Pick(r, free)
		} else {
			o := &model.Output{Kind: model.OutBasic, UCs: []model.UC{{Type: model.UCAddress, Addr: pl.addrFor(model.ACapMana)}}}
			if rest >= pl.minAmount(o) {
				t.Outputs = append(t.Outputs, o)
				big = o
			} else if len(free) > 0 {
				big = core.Pick(r, free)
			} else {
				return false
			}
		}
		big.Amount += rest
		// spread
		for i := 0; i < r.Intn(3) && len(free) > 0; i++ {
			o := core.Pick(r, free)
			if m := pl.minAmount(big); o != big && big.Amount > m && !r.Pct(pl.B.Exact) {
				x := r.U64n(big.Amount - m)
				big.Amount -= x
				o.Amount += x
			}
		}
	}
	for _, o := range t.Outputs {
		if o.Kind == model.OutDelegation && o.ID == (model.Hash{}) {
			o.Delegated = o.Amount
		}
		if f := o.Feat(model.FStaking); f != nil && o.ID == (model.Hash{}) && r.Pct(20) {
			f.Staked = o.Amount
		}
	}
	return len(t.Outputs) > 0 && len(t.Outputs) <= 128
}

// fund adds a rich plain coin as another input.
func (pl *Planner) fund(d *Draft, in *uint64) bool {
	all := pl.S.List()
	n := len(all)
	if n == 0 {
		return false
	}
	off := pl.R.Intn(n)
	for i := 0; i < n; i++ {
		c := all[(off+i)%n]
		if c.O.Kind != model.OutBasic || c.O.IsImplicit() || pl.has(c) || !pl.usable(c) || c.O.Feat(model.FNativeToken) != nil || c.O.UC(model.UCSDR) != nil || c.Slot() > d.Tx.CreationSlot {
			continue
		}
		a := ownerOf(pl.P, d.Tx, c, d.commitSlot())
		if !a.IsDirect() || keyByAddr[a.ID] == nil {
			continue
		}
		pl.ins = append(pl.ins, c)
		d.Coins = append(d.Coins, c)
		d.Tx.Inputs = append(d.Tx.Inputs, c.ID)
		*in += c.O.Amount
		return true
	}
	return false
}

// mana distributes the available mana. It reports whether some has to be burned.
func (pl *Planner) mana(d *Draft, burn bool) bool {
	r, p, t := pl.R, pl.P, d.Tx
	total := new(big.Int)
	bound := map[model.Hash]*big.Int{}
	for _, c := range d.Coins {
		st, ok := p.DecayBySlots(c.O.Mana, c.Slot(), t.CreationSlot)
		po, ok2 := p.Potential(c.O, c.Slot(), t.CreationSlot)
		if !ok || !ok2 {
			return false
		}
		x := new(big.Int).Add(st, po)
		total.Add(total, x)
		if c.O.IsImplicit() || c.O.Kind == model.OutAccount {
			var h model.Hash
			copy(h[:], c.Chain()[1:])
			bound[h] = x
		}
	}
	if d.C != nil {
		for _, x := range t.Ctx {
			if x.Type == model.CtxReward {
				total.Add(total, bigU(pl.Env.Reward(d.Coins[x.Index].Chain(), d.C.Slot)))
			}
		}
	}
	for _, o := range t.Outputs {
		o.Mana = 0
	}
	t.Allotments = nil
	if total.Cmp(bigU(p.MaxMana())) > 0 {
		total = bigU(p.MaxMana())
	}
	left := new(big.Int).Set(total)
	lock := uint32(0)
	if d.C != nil {
		lock = d.C.Slot + 2*p.MaxCA
	}
	allot := map[model.Hash]uint64{}
	var hs []model.Hash
	for h := range bound {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return bytes.Compare(hs[i][:], hs[j][:]) < 0 })
	for _, h := range hs {
		var acc *model.Output
		for _, o := range t.Outputs {
			if o.Kind == model.OutAccount && o.ID == h {
				acc = o
			}
		}
		if acc == nil || acc.Feat(model.FBlockIssuer) == nil && r.Bool() || bound[h].Cmp(left) > 0 {
			continue
		}
		x := bound[h].Uint64()
		left.Sub(left, bound[h])
		if x > 0 && r.Pct(20) {
			y := r.U64n(x + 1)
			allot[h] += y
			x -= y
		}
		if x > 0 && r.Pct(20) && lock != 0 {
			for _, o := range t.Outputs {
				a, l := o.UC(model.UCAddress), o.UC(model.UCTimelock)
				if a != nil && l != nil && l.Slot > lock && a.Addr.Kind == model.AddrAccount && a.Addr.ID == h {
					y := r.U64n(x + 1)
					o.Mana += y
					x -= y
					break
				}
			}
		}
		if capAll(acc, model.ACapMana) {
			acc.Mana += x
		} else {
			allot[h] += x
		}
	}
	var recv []*model.Output
	for _, o := range t.Outputs {
		if o.Kind != model.OutFoundry && o.Kind != model.OutDelegation && capAll(o, model.ACapMana) && !(d.fix[o] && o.Kind == model.OutBasic) {
			recv = append(recv, o)
		}
	}
	if burn && r.Bool() {
		left = pl.bigUpTo(left)
	}
	for i := 0; i < 3 && left.Sign() > 0; i++ {
		x := pl.bigUpTo(left).Uint64()
		switch {
		case r.Pct(30):
			h := r.Hash()
			if len(hs) > 0 && r.Bool() {
				h = core.Pick(r, hs)
			}
			if x > 0 {
				allot[h] += x
				left.Sub(left, bigU(x))
			}
		case len(recv) > 0:
			core.Pick(r, recv).Mana += x
			left.Sub(left, bigU(x))
		}
	}
	rest := false
	if left.Sign() > 0 {
		switch {
		case len(recv) > 0:
			core.Pick(r, recv).Mana += left.Uint64()
		case r.Bool():
			allot[r.Hash()] += left.Uint64()
		default:
			rest = true
		}
	}
	setAllot(t, allot)
	return rest || burn
}

func setAllot(t *model.Tx, m map[model.Hash]uint64) {
	t.Allotments = nil
	for h, x := range m {
		t.Allotments = append(t.Allotments, model.Allotment{AccountID: h, Mana: x})
	}
	sort.Slice(t.Allotments, func(i, j int) bool {
		return bytes.Compare(t.Allotments[i].AccountID[:], t.Allotments[j].AccountID[:]) < 0
	})
}

// Resign builds the unlocks for the current content.
func (pl *Planner) Resign(d *Draft) { d.Us = Sign(pl.P, pl.R, d.Tx, d.Coins, d.commitSlot()) }

func (d *Draft) Signed() *model.SignedTx { return &model.SignedTx{Tx: d.Tx, Unlocks: d.Us} }

// Clone makes an independent copy.
func (d *Draft) Clone() *Draft {
	s := model.CloneSigned(d.Signed())
	c := &Draft{Tx: s.Tx, Us: s.Unlocks, Coins: append([]*Coin(nil), d.Coins...), C: d.C, fix: map[*model.Output]bool{}}
	for i, o := range d.Tx.Outputs {
		if d.fix[o] {
			c.fix[s.Tx.Outputs[i]] = true
		}
	}
	return c
}
