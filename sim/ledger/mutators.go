package ledger

import (
	"bytes"
	"math/big"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

func ps(s ...string) []string { return s }

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

// mutators are the ways in which byzantine clients break transactions. Each breaks (at most) one rule; some keep to the
// rules in an unusual way. What is right is up to the model.
var mutators = []mutator{
	// base tokens
	{"amount", ps("L01"), noBase, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return o.Amount > 1 && o.Kind != model.OutDelegation })
		if o == nil {
			return false
		}
		o.Amount = x.nearU(o.Amount)
		return true
	}},
	{"amount-wrap", ps("L01", "L13"), noBase, func(x *mx) bool {
		os := x.outs(func(o *model.Output) bool { return o.Kind != model.OutDelegation && o.Kind != model.OutAnchor })
		if len(os) < 2 {
			return false
		}
		x.R.Shuffle(len(os), func(i, j int) { os[i], os[j] = os[j], os[i] })
		d := uint64(1) << 63
		if x.R.Bool() {
			d = x.R.U64() | 1<<62
		}
		os[0].Amount += d
		os[1].Amount += -d
		return true
	}},
	{"drop-output", ps("L01", "L12", "L06", "L07", "L09"), noBase, func(x *mx) bool {
		o := x.out(any1)
		if o == nil || len(x.t.Outputs) < 2 {
			return false
		}
		x.dropOut(o)
		return true
	}},
	{"drop-output-rebalanced", ps("L12", "L06", "L01", "L07", "L09", "L03"), 0, func(x *mx) bool {
		o := x.out(any1)
		if o == nil || len(x.t.Outputs) < 2 {
			return false
		}
		delete(x.d.fix, o)
		x.dropOut(o)
		return true
	}},
	{"sdr-less", ps("L01"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return x.d.fix[o] && o.Kind == model.OutBasic })
		if o == nil {
			return false
		}
		o.Amount--
		return true
	}},
	{"sdr-elsewhere", ps("L01"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return x.d.fix[o] && o.Kind == model.OutBasic })
		if o == nil {
			return false
		}
		switch x.R.Intn(5) {
		case 0:
			o.UCs[0].Addr = x.anyKey()
		case 1:
			// the wrapped address in place of the restricted one and the other way round
			if o.UCs[0].Addr.Kind == model.AddrRestricted {
				o.UCs[0].Addr = o.UCs[0].Addr.Inner
			} else if o.UCs[0].Addr.Kind != model.AddrImplicit {
				o.UCs[0].Addr = &model.Addr{Kind: model.AddrRestricted, Inner: o.UCs[0].Addr, Caps: genCaps(x.R)}
			}
		case 2:
			o.Feats = addFeat(o.Feats, model.Feat{Type: model.FTag, Tag: []byte{1}})
			o.Amount = max(o.Amount, x.minAmount(o))
		case 3:
			o.UCs = append(o.UCs, model.UC{Type: model.UCTimelock, Slot: 1})
			o.Amount = max(o.Amount, x.minAmount(o))
		case 4:
			o.Kind = model.OutNFT
			o.Amount = max(o.Amount, x.minAmount(o))
		}
		return true
	}},
	{"sdr-owner-elsewhere", ps("L01"), 0, func(x *mx) bool {
		// the return address unlocks some other input: the deposit is still due
		s := x.in(hasU(model.UCSDR))
		if s == nil {
			return false
		}
		a := s.O.UC(model.UCSDR).Addr
		c := x.coin(func(c *Coin) bool {
			return isPlain(c.O) && c.Slot() <= x.t.CreationSlot && c.O.UCs[0].Addr.Resolve().Equal(a.Resolve())
		})
		if c == nil {
			return false
		}
		x.addInput(c)
		if o := x.out(func(o *model.Output) bool { return x.d.fix[o] && isPlain(o) && o.UCs[0].Addr.Equal(a) }); o != nil && x.R.Pct(80) {
			x.dropOut(o)
		}
		return true
	}},
	{"sdr-unreturned", ps("L01"), 0, func(x *mx) bool {
		// spend something with a return condition without thinking about it
		c := x.coin(func(c *Coin) bool {
			return c.O.UC(model.UCSDR) != nil && x.usable(c) && c.Slot() <= x.t.CreationSlot && c.O.Kind == model.OutBasic && c.O.UC(model.UCAddress).Addr.Resolve().IsDirect()
		})
		if c == nil {
			return false
		}
		x.addInput(c)
		return true
	}},
	// mana
	{"mana", ps("L02"), noMana, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool {
			return o.Kind != model.OutFoundry && o.Kind != model.OutDelegation && capAll(o, model.ACapMana)
		})
		if len(x.t.Allotments) > 0 && x.R.Bool() || o == nil {
			if len(x.t.Allotments) == 0 {
				return false
			}
			a := &x.t.Allotments[x.R.Intn(len(x.t.Allotments))]
			a.Mana = x.nearU(a.Mana)
			return true
		}
		o.Mana = x.nearU(o.Mana)
		return true
	}},
	{"mana-exact-claim", ps("L02", "L12"), noMana, func(x *mx) bool {
		x.remana()
		o := x.out(func(o *model.Output) bool { return o.Kind == model.OutBasic && capAll(o, model.ACapMana) })
		if o == nil {
			return false
		}
		o.Mana += []uint64{0, 1, 2}[x.R.Intn(3)]
		if x.R.Pct(40) && o.Mana > 0 {
			o.Mana -= min(o.Mana, 1+x.R.U64n(3))
		}
		x.setCap(model.CapBurnMana, x.R.Pct(40))
		return true
	}},
	{"mana-wrap", ps("L02"), noMana, func(x *mx) bool {
		os := x.outs(func(o *model.Output) bool { return o.Kind == model.OutBasic || o.Kind == model.OutNFT })
		if len(os) < 2 {
			return false
		}
		d := uint64(1) << 63
		if x.R.Bool() {
			d = uint64(1) << (x.P.ManaBits - 1)
		}
		os[0].Mana += d
		if x.R.Bool() {
			os[1].Mana += -d
		} else {
			os[1].Mana += d
		}
		return true
	}},
	{"allot-wrap", ps("L02"), noMana, func(x *mx) bool {
		h := [][32]byte{x.R.Hash(), x.R.Hash()}
		if bytes.Compare(h[0][:], h[1][:]) > 0 {
			h[0], h[1] = h[1], h[0]
		}
		d := x.R.U64() | 1<<63
		x.t.Allotments = []model.Allotment{{AccountID: h[0], Mana: d}, {AccountID: h[1], Mana: -d}}
		if x.R.Bool() {
			x.t.Allotments = x.t.Allotments[:1]
			if o := x.out(any1); o != nil {
				o.Mana += -d
			}
		}
		return true
	}},
	{"mana-in-wrap", ps("L02"), noMana, func(x *mx) bool {
		// more mana goes in than 64 bits hold
		for i := 0; i < 3; i++ {
			if t, ok := x.avail(); !ok || t.BitLen() > 64 {
				break
			}
			c := x.coin(func(c *Coin) bool {
				return isPlain(c.O) && c.O.Mana > 1<<61 && c.Slot() <= x.t.CreationSlot && c.O.UCs[0].Addr.Resolve().Kind == model.AddrEd25519
			})
			if c == nil {
				break
			}
			x.addInput(c)
		}
		t, ok := x.avail()
		if !ok || t.BitLen() <= 64 {
			return false
		}
		for _, o := range x.t.Outputs {
			o.Mana = 0
		}
		x.t.Allotments = nil
		x.setCap(model.CapBurnMana, x.R.Bool())
		t.Mod(t, new(big.Int).Lsh(big.NewInt(1), 64))
		if o := x.out(isPlain); o != nil && t.BitLen() < 64 && x.R.Bool() {
			o.Mana = min(t.Uint64(), x.P.MaxMana())
		}
		return true
	}},
	{"mana-max", ps("L02"), noMana, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return o.Kind != model.OutFoundry && o.Kind != model.OutDelegation })
		if o == nil {
			return false
		}
		o.Mana = x.P.MaxMana() + uint64(x.R.Intn(3)) - 1
		return true
	}},
	{"creation-slot", ps("L02", "B01"), noMana, func(x *mx) bool {
		switch x.R.Intn(4) {
		case 0:
			x.t.CreationSlot++
		case 1:
			x.t.CreationSlot--
		case 2:
			// just before the youngest input
			for _, c := range x.d.Coins {
				x.t.CreationSlot = max(x.t.CreationSlot*0, c.Slot()) - 1
			}
		case 3:
			x.t.CreationSlot = x.Now + uint32(x.R.Intn(3))
			x.remana()
		}
		return true
	}},
	{"late-claim", ps("L02"), noMana, func(x *mx) bool {
		// claim what a later creation slot would give
		s := x.t.CreationSlot
		x.t.CreationSlot += 1 + uint32(x.R.Intn(1<<x.P.SPE))
		x.remana()
		x.t.CreationSlot = s
		return true
	}},
	{"epoch-shift", ps("L02"), 0, func(x *mx) bool {
		// create it around an epoch boundary, as far as the inputs allow
		e := x.P.Epoch(x.t.CreationSlot)
		x.t.CreationSlot = x.P.EpochStart(e) + uint32(x.R.Intn(3)) - 1
		return true
	}},
	// native tokens
	{"nt-amount", ps("L03", "L12"), 0, func(x *mx) bool {
		o := x.out(hasF(model.FNativeToken))
		if o == nil {
			return false
		}
		f := o.Feat(model.FNativeToken)
		f.NTAmount = x.nearBig(f.NTAmount)
		if x.R.Pct(30) {
			x.setCap(model.CapBurnNT, true)
		}
		return true
	}},
	{"nt-word", ps("L03", "L12"), 0, func(x *mx) bool {
		// a difference that does not show in the lower words of the sums
		o := x.out(func(o *model.Output) bool { f := o.Feat(model.FNativeToken); return f != nil && f.NTAmount.BitLen() > 65 })
		if o == nil {
			return false
		}
		f := o.Feat(model.FNativeToken)
		k := uint(64 * x.R.Range(1, (f.NTAmount.BitLen()-1)/64))
		d := new(big.Int).Lsh(big.NewInt(1), k)
		if x.R.Pct(30) {
			f.NTAmount.Add(f.NTAmount, d)
		} else {
			f.NTAmount.Sub(f.NTAmount, d)
		}
		x.setCap(model.CapBurnNT, x.R.Pct(25))
		return f.NTAmount.Sign() > 0 && f.NTAmount.BitLen() <= 256
	}},
	{"nt-wrap", ps("L03"), 0, func(x *mx) bool {
		o := x.out(hasF(model.FNativeToken))
		if o == nil {
			return false
		}
		f := *o.Feat(model.FNativeToken)
		d := new(big.Int).Lsh(big.NewInt(1), 255)
		o.Feats = append([]model.Feat(nil), o.Feats...)
		o.Feat(model.FNativeToken).NTAmount = new(big.Int).Mod(new(big.Int).Add(f.NTAmount, d), two256)
		b := x.basic(x.anyKey())
		f.NTAmount = d
		b.Feats = []model.Feat{f}
		b.Amount = x.minAmount(b)
		return true
	}},
	{"nt-other-id", ps("L03"), 0, func(x *mx) bool {
		o := x.out(hasF(model.FNativeToken))
		if o == nil {
			return false
		}
		f := o.Feat(model.FNativeToken)
		f.NTID[x.R.Intn(38)] ^= 1 << x.R.Intn(8)
		return true
	}},
	{"nt-new", ps("L03"), 0, func(x *mx) bool {
		b := x.basic(x.anyKey())
		var id model.OutputID
		if c := x.coin(func(c *Coin) bool { return c.O.Kind == model.OutFoundry }); c != nil && x.R.Pct(70) {
			id = c.O.FoundryID()
		} else if x.R.Bool() {
			copy(id[:], append([]byte{8}, x.R.Bytes(32)...))
			id[33] = 1
		}
		b.Feats = []model.Feat{{Type: model.FNativeToken, NTID: id, NTAmount: big.NewInt(int64(x.R.Range(1, 3)))}}
		b.Amount = x.minAmount(b)
		return true
	}},
	{"foundry-counters", ps("L03"), 0, func(x *mx) bool {
		o := x.out(kind(model.OutFoundry))
		if o == nil {
			return false
		}
		k := big.NewInt(int64(x.small()))
		if x.R.Pct(25) {
			if k = x.pow2(o.Minted); k.Sign() < 0 {
				k.Neg(k)
			}
		}
		switch x.R.Intn(8) {
		case 0:
			o.Minted.Add(o.Minted, k)
		case 1:
			o.Melted.Add(o.Melted, k)
		case 2:
			o.Minted.Add(o.Minted, k)
			o.Melted.Add(o.Melted, k)
		case 3:
			o.Minted.Sub(o.Minted, k)
		case 4:
			o.Melted.Sub(o.Melted, k)
		case 5:
			o.MaxSupply = x.nearBig(o.MaxSupply)
		case 6:
			o.Minted, o.Melted = o.Melted, o.Minted
		case 7:
			if c := x.prev(o); c != nil {
				// keep the counters although supply changed
				o.Minted, o.Melted = new(big.Int).Set(c.O.Minted), new(big.Int).Set(c.O.Melted)
			} else {
				o.Minted = x.nearBig(o.MaxSupply)
			}
		}
		if o.Minted.Sign() < 0 || o.Melted.Sign() < 0 || o.Minted.BitLen() > 256 || o.Melted.BitLen() > 256 {
			return false
		}
		return true
	}},
	{"foundry-mint-and-take", ps("L03"), 0, func(x *mx) bool {
		// mint or melt with a matching token change, possibly beyond the limits or against the counters
		o := x.out(kind(model.OutFoundry))
		if o == nil {
			return false
		}
		k := big.NewInt(int64(x.small()))
		if x.R.Pct(40) {
			k = new(big.Int).Sub(o.MaxSupply, new(big.Int).Sub(o.Minted, o.Melted))
			k.Add(k, big.NewInt(int64(x.R.Intn(3))))
		}
		if k.Sign() <= 0 || new(big.Int).Add(o.Minted, k).BitLen() > 256 {
			return false
		}
		id := o.FoundryID()
		switch x.R.Intn(4) {
		case 0, 1:
			o.Minted.Add(o.Minted, k)
		case 2:
			if o.Melted.Cmp(k) < 0 {
				return false
			}
			o.Melted.Sub(o.Melted, k) // circulate tokens by taking back melted ones
		case 3:
			o.Minted.Add(o.Minted, k)
			o.Minted.Add(o.Minted, big.NewInt(1))
			o.Melted.Add(o.Melted, big.NewInt(1))
			if o.Minted.BitLen() > 256 {
				return false
			}
		}
		b := x.basic(x.anyKey())
		b.Feats = []model.Feat{{Type: model.FNativeToken, NTID: id, NTAmount: k}}
		b.Amount = x.minAmount(b)
		return true
	}},
	{"foundry-melt", ps("L03", "L12"), 0, func(x *mx) bool {
		// take tokens away, with the counter following or not
		o := x.out(kind(model.OutFoundry))
		if o == nil {
			return false
		}
		id := o.FoundryID()
		b := x.out(func(b *model.Output) bool { f := b.Feat(model.FNativeToken); return f != nil && f.NTID == id })
		if b == nil {
			return false
		}
		f := *b.Feat(model.FNativeToken)
		b.Feats = delFeat(b.Feats, model.FNativeToken)
		switch x.R.Intn(4) {
		case 0:
			o.Melted.Add(o.Melted, f.NTAmount)
		case 1:
			o.Melted.Add(o.Melted, x.nearBig(f.NTAmount))
		case 2:
			o.Minted.Sub(o.Minted, f.NTAmount)
		}
		if o.Melted.BitLen() > 256 || o.Minted.Sign() < 0 {
			return false
		}
		x.setCap(model.CapBurnNT, x.R.Pct(50))
		return true
	}},
	{"foundry-serial", ps("L03", "L06"), 0, func(x *mx) bool {
		o := x.out(kind(model.OutFoundry))
		if o == nil {
			return false
		}
		switch x.R.Intn(3) {
		case 0:
			o.Serial++
		case 1:
			o.Serial--
		case 2:
			o.Serial = uint32(x.R.Intn(4))
		}
		return true
	}},
	{"foundry-swap", ps("L03"), 0, func(x *mx) bool {
		os := x.outs(kind(model.OutFoundry))
		if len(os) < 2 {
			return false
		}
		if x.R.Bool() {
			*os[0], *os[1] = *os[1], *os[0]
		} else {
			os[0].Serial = os[1].Serial
		}
		return true
	}},
	{"foundry-counter", ps("L03", "L06"), 0, func(x *mx) bool {
		o := x.out(kind(model.OutAccount))
		if o == nil {
			return false
		}
		o.FoundryCounter = x.near(o.FoundryCounter)
		if x.R.Pct(20) {
			o.FoundryCounter = 0
		}
		return true
	}},
	{"foundry-new", ps("L03", "L06", "L15"), 0, func(x *mx) bool {
		// a new foundry without (proper) account transition
		id := x.R.Hash()
		as := x.outs(kind(model.OutAccount))
		serial := uint32(1)
		if len(as) > 0 && x.R.Pct(70) {
			a := core.Pick(x.R, as)
			id = a.ID
			serial = a.FoundryCounter + uint32(x.R.Intn(2))
			if x.R.Bool() {
				a.FoundryCounter = serial
			}
		} else if c := x.coin(func(c *Coin) bool { return c.O.Kind == model.OutAccount }); c != nil && x.R.Bool() {
			copy(id[:], c.Chain()[1:])
			serial = c.O.FoundryCounter + 1
		}
		o := &model.Output{Kind: model.OutFoundry, Serial: serial, Minted: big.NewInt(int64(x.R.Intn(2))), Melted: new(big.Int), MaxSupply: big.NewInt(int64(x.R.Intn(5))),
			UCs: []model.UC{{Type: model.UCImmAccount, Addr: &model.Addr{Kind: model.AddrAccount, ID: id}}}}
		o.Amount = x.minAmount(o)
		if o.Minted.Sign() > 0 {
			b := x.basic(x.anyKey())
			b.Feats = []model.Feat{{Type: model.FNativeToken, NTID: o.FoundryID(), NTAmount: big.NewInt(int64(x.R.Range(1, 2)))}}
			b.Amount = x.minAmount(b)
		}
		x.t.Outputs = append(x.t.Outputs, o)
		return true
	}},
	{"foundry-new-two", ps("L03", "L06"), 0, func(x *mx) bool {
		a := x.out(func(o *model.Output) bool { return o.Kind == model.OutAccount && x.prev(o) != nil })
		if a == nil {
			return false
		}
		base := a.FoundryCounter
		s := []uint32{base + 1, base + 2}
		switch x.R.Intn(5) {
		case 0:
			s[0], s[1] = s[1], s[0]
		case 1:
			s[1] = s[0]
		case 2:
			s[1]++
		}
		a.FoundryCounter += 2
		for i := range s {
			o := &model.Output{Kind: model.OutFoundry, Serial: s[i], Minted: new(big.Int), Melted: new(big.Int), MaxSupply: big.NewInt(5),
				UCs: []model.UC{{Type: model.UCImmAccount, Addr: &model.Addr{Kind: model.AddrAccount, ID: a.ID}}}}
			o.Amount = x.minAmount(o)
			x.t.Outputs = append(x.t.Outputs, o)
		}
		return true
	}},
	{"foundry-destroy", ps("L03", "L12"), 0, func(x *mx) bool {
		c := x.in(kind(model.OutFoundry))
		if c == nil {
			return false
		}
		o := x.next(c)
		if o == nil {
			return false
		}
		x.dropOut(o)
		x.setCap(model.CapDestFoundry, x.R.Pct(85))
		id := o.FoundryID()
		for _, b := range x.t.Outputs {
			if f := b.Feat(model.FNativeToken); f != nil && f.NTID == id && x.R.Pct(70) {
				b.Feats = delFeat(b.Feats, model.FNativeToken)
			}
		}
		x.setCap(model.CapBurnNT, x.R.Pct(50))
		return true
	}},
	// unlocks
	{"unlock-swap", ps("L04"), noSign | noBase | noMana, func(x *mx) bool {
		n := len(x.d.Us)
		if n < 2 {
			return false
		}
		i, j := x.R.Intn(n), x.R.Intn(n)
		x.d.Us[i], x.d.Us[j] = x.d.Us[j], x.d.Us[i]
		return i != j
	}},
	{"input-swap", ps("L04"), noBase | noMana | noSign, func(x *mx) bool {
		n := len(x.d.Coins)
		if n < 2 {
			return false
		}
		i, j := x.R.Intn(n), x.R.Intn(n)
		if i == j {
			return false
		}
		x.d.Coins[i], x.d.Coins[j] = x.d.Coins[j], x.d.Coins[i]
		x.t.Inputs[i], x.t.Inputs[j] = x.t.Inputs[j], x.t.Inputs[i]
		// signatures stay where they are but are over the new content
		msg := model.SigningMessage(x.t)
		for k := range x.d.Us {
			resign(&x.d.Us[k], msg)
		}
		return true
	}},
	{"unlock-otherkey", ps("L04"), noSign | noBase | noMana, func(x *mx) bool {
		s := x.needSig(func(u *model.Unlock, i int) bool { return u.Type == model.UnlSignature })
		if len(s) == 0 {
			return false
		}
		i := core.Pick(x.R, s)
		k := allKeys[x.R.Intn(len(allKeys))]
		u := x.sigOf(k)
		if x.R.Pct(25) {
			// the right key's name on another key's signature
			u.Pub = x.d.Us[i].Pub
		} else if x.R.Pct(25) {
			u.Sig = x.d.Us[i].Sig
		}
		x.d.Us[i] = u
		return true
	}},
	{"unlock-bitflip", ps("L04", "B02"), noSign | noBase | noMana, func(x *mx) bool {
		s := x.needSig(func(u *model.Unlock, i int) bool { return u.Type == model.UnlSignature })
		if len(s) == 0 {
			return false
		}
		u := &x.d.Us[core.Pick(x.R, s)]
		if x.R.Bool() {
			u.Pub[x.R.Intn(32)] ^= 1 << x.R.Intn(8)
		} else {
			u.Sig[x.R.Intn(64)] ^= 1 << x.R.Intn(8)
		}
		return true
	}},
	{"unlock-content-changed", ps("L04", "B02"), noSign, func(x *mx) bool {
		// change something after signing
		switch x.R.Intn(4) {
		case 0:
			o := x.out(func(o *model.Output) bool { return o.UC(model.UCAddress) != nil })
			if o == nil {
				return false
			}
			o.UC(model.UCAddress).Addr = x.addrFor(model.ACapMana, model.ACapAccount, model.ACapNFT)
		case 1:
			x.t.Payload = &model.Tagged{Tag: x.R.Bytes(3), Data: x.R.Bytes(5)}
		case 2:
			os := x.outs(isPlain)
			if len(os) < 2 {
				return false
			}
			os[0].Amount++
			os[1].Amount--
		case 3:
			x.setCap(x.R.Intn(6), true)
		}
		return true
	}},
	{"unlock-copied", ps("L04", "B02"), noSign | noBase | noMana, func(x *mx) bool {
		// signatures of an earlier transaction
		if len(x.w.oldSigs) == 0 {
			return false
		}
		done := false
		for i := range x.d.Us {
			if x.d.Us[i].Type != model.UnlSignature {
				continue
			}
			for _, o := range x.w.oldSigs {
				if o.Pub == x.d.Us[i].Pub && o.Sig != x.d.Us[i].Sig {
					x.d.Us[i] = o
					done = true
				}
			}
		}
		return done
	}},
	{"unlock-othermessage", ps("L04"), noSign | noBase | noMana, func(x *mx) bool {
		// sign something that is not this transaction for this network
		t := model.CloneTx(x.t)
		switch x.R.Intn(4) {
		case 0:
			t.NetworkID++
		case 1:
			t.Caps = append(t.Caps, 0)
		case 2:
			t.CreationSlot++
		case 3:
			t.Outputs = t.Outputs[:len(t.Outputs)-1]
		}
		msg := model.SigningMessage(t)
		s := x.needSig(func(u *model.Unlock, i int) bool { return u.Type == model.UnlSignature })
		if len(s) == 0 {
			return false
		}
		for _, i := range s {
			resign(&x.d.Us[i], msg)
		}
		return true
	}},
	{"unlock-ref", ps("L04", "L14"), noSign | noBase | noMana, func(x *mx) bool {
		s := x.needSig(func(u *model.Unlock, i int) bool { return u.Type >= model.UnlReference && u.Type <= model.UnlNFT })
		if len(s) == 0 {
			return false
		}
		u := &x.d.Us[core.Pick(x.R, s)]
		u.Ref = uint16(x.R.Intn(len(x.d.Us) + 1))
		return true
	}},
	{"unlock-to-ref", ps("L04"), noSign | noBase | noMana, func(x *mx) bool {
		// reference some earlier unlock instead of unlocking
		n := len(x.d.Us)
		if n < 2 {
			return false
		}
		i := 1 + x.R.Intn(n-1)
		x.d.Us[i] = model.Unlock{Type: core.Pick(x.R, []byte{1, 1, 2, 3, 4}), Ref: uint16(x.R.Intn(i + 1))}
		return true
	}},
	{"unlock-type", ps("L04"), noSign | noBase | noMana, func(x *mx) bool {
		s := x.needSig(func(u *model.Unlock, i int) bool { return u.Type >= model.UnlReference && u.Type <= model.UnlNFT })
		if len(s) == 0 {
			return false
		}
		x.d.Us[core.Pick(x.R, s)].Type = byte(x.R.Range(1, 4))
		return true
	}},
	{"unlock-repeat-sig", ps("L04", "L14"), noSign | noBase | noMana, func(x *mx) bool {
		// a second full signature where a reference belongs
		s := x.needSig(func(u *model.Unlock, i int) bool { return u.Type == model.UnlReference })
		if len(s) == 0 {
			return false
		}
		i := core.Pick(x.R, s)
		if r := int(x.d.Us[i].Ref); r < len(x.d.Us) {
			x.d.Us[i] = x.d.Us[r]
		}
		return true
	}},
	{"unlock-count", ps("L04", "L14"), noSign | noBase | noMana, func(x *mx) bool {
		if x.R.Bool() && len(x.d.Us) > 1 {
			x.d.Us = x.d.Us[:len(x.d.Us)-1]
		} else {
			x.d.Us = append(x.d.Us, x.sigOf(allKeys[9]))
		}
		return true
	}},
	{"multi", ps("L04", "L14"), noSign | noBase | noMana, func(x *mx) bool {
		s := x.needSig(func(u *model.Unlock, i int) bool { return u.Type == model.UnlMulti })
		if len(s) == 0 {
			return false
		}
		i := core.Pick(x.R, s)
		u := &x.d.Us[i]
		u.Subs = model.CloneUnlocks(u.Subs)
		var full []int
		for j := range u.Subs {
			if u.Subs[j].Type != model.UnlEmpty {
				full = append(full, j)
			}
		}
		if len(full) == 0 {
			return false
		}
		j := core.Pick(x.R, full)
		switch x.R.Intn(9) {
		case 0, 1, 2:
			u.Subs[j] = model.Unlock{Type: model.UnlEmpty}
		case 3:
			k := x.R.Intn(len(u.Subs))
			u.Subs[j], u.Subs[k] = u.Subs[k], u.Subs[j]
		case 4:
			u.Subs = append(u.Subs, model.Unlock{Type: model.UnlEmpty})
		case 5:
			u.Subs = u.Subs[:len(u.Subs)-1]
		case 6:
			u.Subs[j] = x.sigOf(allKeys[x.R.Intn(len(allKeys))])
		case 7:
			// the same member again in an empty place
			k := x.R.Intn(len(u.Subs))
			u.Subs[k] = u.Subs[j]
		case 8:
			u.Subs[j] = model.Unlock{Type: core.Pick(x.R, []byte{1, 2, 3, 4, 5}), Ref: uint16(x.R.Intn(len(x.d.Us)))}
			if u.Subs[j].Type == model.UnlMulti {
				u.Subs[j].Subs = []model.Unlock{{Type: model.UnlEmpty}}
			}
		}
		return true
	}},
	{"multi-under-threshold", ps("L04", "L10"), noBase | noMana, func(x *mx) bool {
		// exactly fill the members until just below the threshold
		c := x.in(func(o *model.Output) bool {
			u := o.UC(model.UCAddress)
			return u != nil && u.Addr.Resolve().Kind == model.AddrMulti
		})
		if c == nil {
			return false
		}
		a := c.O.UC(model.UCAddress).Addr.Resolve()
		x.post = func(us []model.Unlock) []model.Unlock {
			for i, y := range x.d.Coins {
				if y != c || us[i].Type != model.UnlMulti || len(us[i].Subs) != len(a.Members) {
					continue
				}
				sum := 0
				for j := range us[i].Subs {
					if us[i].Subs[j].Type == model.UnlEmpty {
						continue
					}
					if sum+int(a.Members[j].Weight) >= int(a.Threshold) {
						us[i].Subs[j] = model.Unlock{Type: model.UnlEmpty}
					} else {
						sum += int(a.Members[j].Weight)
					}
				}
			}
			return us
		}
		return true
	}},
	{"steal", ps("L04"), 0, func(x *mx) bool {
		// somebody else's output
		c := x.coin(func(c *Coin) bool { return c.Slot() <= x.t.CreationSlot && !c.O.IsImplicit() })
		if c == nil {
			return false
		}
		x.addInput(c)
		thief := ownerOf(x.P, x.t, x.d.Coins[0], x.d.commitSlot())
		if x.R.Pct(50) {
			thief = x.unrelated()
		}
		x.as[c] = thief
		return true
	}},
	{"steal-all", ps("L04", "L10"), noBase | noMana, func(x *mx) bool {
		c := core.Pick(x.R, x.d.Coins)
		x.as[c] = x.unrelated()
		return true
	}},
	{"spend-more", ps("L04", "L05", "L06", "L01"), 0, func(x *mx) bool {
		// a rightful additional input, however its locks are
		c := x.coin(func(c *Coin) bool { return c.Slot() <= x.t.CreationSlot })
		if c == nil {
			return false
		}
		x.addInput(c)
		return true
	}},
	{"owner-is-dependent", ps("L04"), noBase | noMana, func(x *mx) bool {
		// unlock by a chain that comes later or is the thing itself
		c := x.in(func(o *model.Output) bool {
			u := o.UC(model.UCAddress)
			return u != nil && u.Addr.Resolve().IsChain()
		})
		if c == nil || len(x.d.Coins) < 2 {
			return false
		}
		// move the input to the front
		for i, y := range x.d.Coins {
			if y == c {
				copy(x.d.Coins[1:i+1], x.d.Coins[:i])
				copy(x.t.Inputs[1:i+1], x.t.Inputs[:i])
				x.d.Coins[0], x.t.Inputs[0] = c, c.ID
				return i > 0
			}
		}
		return false
	}},
	{"anchor-role", ps("L04", "L06", "L10"), 0, func(x *mx) bool {
		// the other role's address signs, or the transition changes role without the signer changing
		c := x.in(kind(model.OutAnchor))
		if c == nil {
			return false
		}
		sc, gov := c.O.UC(model.UCStateCtrl).Addr, c.O.UC(model.UCGovernor).Addr
		n := x.next(c)
		switch x.R.Intn(3) {
		case 0:
			if ownerOf(x.P, x.t, c, x.d.commitSlot()).Equal(sc.Resolve()) {
				x.as[c] = gov
			} else {
				x.as[c] = sc
			}
		case 1:
			if n == nil {
				return false
			}
			x.as[c] = ownerOf(x.P, x.t, c, x.d.commitSlot())
			if n.StateIndex == c.O.StateIndex {
				n.StateIndex++
			} else {
				n.StateIndex = c.O.StateIndex
			}
		case 2:
			if n == nil {
				return false
			}
			if n.StateIndex == c.O.StateIndex {
				n.StateIndex++
			} else {
				n.StateIndex = c.O.StateIndex
			}
		}
		return true
	}},
	// locks
	{"locked-input", ps("L05"), 0, func(x *mx) bool {
		c := x.coin(func(c *Coin) bool {
			return c.Slot() <= x.t.CreationSlot && (c.O.UC(model.UCTimelock) != nil || c.O.UC(model.UCExpiration) != nil)
		})
		if c == nil {
			return false
		}
		x.addInput(c)
		if e := c.O.UC(model.UCExpiration); e != nil {
			switch x.R.Intn(3) {
			case 0:
				x.as[c] = e.Addr
			case 1:
				x.as[c] = c.O.UC(model.UCAddress).Addr
			}
		}
		if u := c.O.UC(model.UCSDR); u != nil && x.R.Pct(70) {
			b := x.basic(u.Addr)
			b.Amount = u.Amount
			x.d.fix[b] = true
		}
		return true
	}},
	{"expired-role", ps("L05", "L04", "L10"), noBase | noMana, func(x *mx) bool {
		c := x.in(hasU(model.UCExpiration))
		if c == nil {
			return false
		}
		if x.R.Bool() {
			x.as[c] = c.O.UC(model.UCExpiration).Addr
		} else {
			x.as[c] = c.O.UC(model.UCAddress).Addr
		}
		return true
	}},
	{"commit-shift", ps("L05", "L07", "L08", "L09", "B01"), 0, func(x *mx) bool {
		cs := x.w.commitList()
		if len(cs) == 0 {
			return false
		}
		keep := x.R.Pct(50)
		if keep {
			for _, c := range x.d.Coins {
				x.as[c] = ownerOf(x.P, x.t, c, x.d.commitSlot())
			}
		}
		c := cs[len(cs)-1-x.R.Intn(min(len(cs), int(x.P.MaxCA)+3))]
		x.setCommit(&c)
		return true
	}},
	{"commit-drop", ps("L05", "L07", "L08", "L09", "L14"), 0, func(x *mx) bool {
		if x.d.C == nil {
			return false
		}
		for _, c := range x.d.Coins {
			x.as[c] = ownerOf(x.P, x.t, c, x.d.commitSlot())
		}
		x.setCommit(nil)
		return true
	}},
	{"commit-fake", ps("L05", "B01"), 0, func(x *mx) bool {
		if x.d.C == nil {
			return false
		}
		c := *x.d.C
		c.ID[x.R.Intn(36)] ^= 1
		c.Slot = model.SlotOf(c.ID)
		x.setCommit(&c)
		return true
	}},
	// chains
	{"chain-id", ps("L06"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return model.HasID(o.Kind) })
		if o == nil {
			return false
		}
		switch x.R.Intn(4) {
		case 0:
			o.ID = x.R.Hash()
		case 1:
			o.ID = model.Hash{}
		case 2:
			o.ID[x.R.Intn(32)] ^= 1
		case 3:
			p := o.ChainIDFor(model.OutputID{})[:1]
			for _, k := range core.SortedKeys(x.S.Chains) {
				if k[:1] == p && x.R.Pct(40) {
					copy(o.ID[:], k[1:])
				}
			}
		}
		return true
	}},
	{"chain-resurrect", ps("L06"), 0, func(x *mx) bool {
		ks := core.SortedKeys(x.S.Dead)
		if len(ks) == 0 {
			return false
		}
		k := core.Pick(x.R, ks)
		o := &model.Output{}
		switch k[0] {
		case 'A':
			o = &model.Output{Kind: model.OutAccount, UCs: []model.UC{{Type: model.UCAddress, Addr: x.anyKey()}}}
		case 'N':
			o = &model.Output{Kind: model.OutNFT, UCs: []model.UC{{Type: model.UCAddress, Addr: x.anyKey()}}}
		case 'R':
			o = &model.Output{Kind: model.OutAnchor, StateIndex: uint32(x.R.Intn(2)), UCs: []model.UC{{Type: model.UCStateCtrl, Addr: x.anyKey()}, {Type: model.UCGovernor, Addr: x.anyKey()}}}
		default:
			return false
		}
		copy(o.ID[:], k[1:])
		o.Amount = x.minAmount(o)
		x.t.Outputs = append(x.t.Outputs, o)
		return true
	}},
	{"chain-steal", ps("L06"), 0, func(x *mx) bool {
		// carry on a chain without consuming it
		c := x.coin(func(c *Coin) bool { return c.O.IsChain() && c.O.Kind != model.OutFoundry })
		if c == nil {
			return false
		}
		n := model.CloneOutput(c.O)
		copy(n.ID[:], c.Chain()[1:])
		n.Mana = 0
		n.Amount = x.minAmount(n)
		x.t.Outputs = append(x.t.Outputs, n)
		return true
	}},
	{"chain-twice", ps("L06", "L14"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool {
			return o.IsChain() && (o.Kind == model.OutFoundry || o.ID != (model.Hash{}))
		})
		if o == nil {
			return false
		}
		n := model.CloneOutput(o)
		n.Mana = 0
		n.Amount = x.minAmount(n)
		if x.R.Pct(30) {
			n.StateIndex++
		}
		x.t.Outputs = append(x.t.Outputs, n)
		return true
	}},
	{"chain-kind", ps("L06"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return o.Kind == model.OutAccount || o.Kind == model.OutNFT })
		if o == nil {
			return false
		}
		if o.Kind == model.OutAccount {
			o.Kind = model.OutNFT
			o.Feats = delFeat(delFeat(o.Feats, model.FBlockIssuer), model.FStaking)
			o.FoundryCounter = 0
		} else {
			o.Kind = model.OutAccount
			o.UCs = o.UCs[:1]
			o.Feats = delFeat(o.Feats, model.FTag)
		}
		return true
	}},
	{"immutable", ps("L06", "L10"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool {
			return (o.Kind == model.OutAccount || o.Kind == model.OutNFT || o.Kind == model.OutAnchor || o.Kind == model.OutFoundry) && (o.Kind == model.OutFoundry || o.ID != (model.Hash{}))
		})
		if o == nil {
			return false
		}
		switch {
		case o.ImmFeat(model.FIssuer) != nil && x.R.Bool():
			if x.R.Bool() {
				o.Imm = delFeat(o.Imm, model.FIssuer)
			} else {
				o.Imm = addFeat(o.Imm, model.Feat{Type: model.FIssuer, Addr: x.unrelated()})
			}
		case o.ImmFeat(model.FMetadata) != nil && x.R.Bool():
			if x.R.Bool() {
				o.Imm = delFeat(o.Imm, model.FMetadata)
			} else {
				f := x.meta(model.FMetadata)
				if x.R.Bool() {
					f = *o.ImmFeat(model.FMetadata)
					f.Entries = append([]model.Entry(nil), f.Entries...)
					e := &f.Entries[x.R.Intn(len(f.Entries))]
					e.Value = append(bytes.Clone(e.Value), 1)
				}
				o.Imm = addFeat(o.Imm, f)
			}
		default:
			o.Imm = addFeat(o.Imm, x.meta(model.FMetadata))
		}
		return true
	}},
	{"anchor-fields", ps("L06"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return o.Kind == model.OutAnchor && o.ID != (model.Hash{}) })
		if o == nil {
			return false
		}
		switch x.R.Intn(6) {
		case 0:
			o.StateIndex++
		case 1:
			o.StateIndex--
		case 2:
			o.UCs[x.R.Intn(2)].Addr = x.addrFor(model.ACapAnchor, model.ACapMana)
		case 3:
			ft := core.Pick(x.R, []byte{model.FMetadata, model.FStateMetadata})
			if o.Feat(ft) != nil && x.R.Bool() {
				o.Feats = delFeat(o.Feats, ft)
			} else {
				o.Feats = addFeat(o.Feats, x.meta(ft))
			}
		case 4:
			o.Amount = x.nearU(o.Amount)
			x.d.fix[o] = true
		case 5:
			o.Mana++
		}
		return true
	}},
	// block issuers
	{"issuer-expiry", ps("L07"), 0, func(x *mx) bool {
		o := x.out(hasF(model.FBlockIssuer))
		if o == nil || x.d.C == nil {
			return false
		}
		f := o.Feat(model.FBlockIssuer)
		switch x.R.Intn(5) {
		case 0, 1:
			f.Expiry = x.past() - 1 + uint32(x.R.Intn(3))
		case 2:
			f.Expiry = x.d.C.Slot + uint32(x.R.Intn(int(x.P.MaxCA)))
		case 3:
			f.Expiry = core.Pick(x.R, []uint32{0, 1, ^uint32(0), ^uint32(0) - 1})
		case 4:
			f.Expiry = x.near(f.Expiry)
		}
		return true
	}},
	{"issuer-remove", ps("L07", "L08"), 0, func(x *mx) bool {
		o := x.out(hasF(model.FBlockIssuer))
		if o == nil {
			return false
		}
		o.Feats = delFeat(o.Feats, model.FBlockIssuer)
		return true
	}},
	{"account-destroy", ps("L07", "L08", "L12", "L06"), 0, func(x *mx) bool {
		c := x.in(func(o *model.Output) bool { return o.Kind == model.OutAccount || o.IsImplicit() })
		if c == nil {
			return false
		}
		o := x.next(c)
		if o == nil {
			return false
		}
		x.dropOut(o)
		x.setCap(model.CapDestAccount, true)
		return len(x.t.Outputs) > 0
	}},
	{"bic-drop", ps("L07"), 0, func(x *mx) bool {
		return x.dropCtx(func(c *model.CtxInput) bool { return c.Type == model.CtxBIC })
	}},
	{"bic-other", ps("L07"), 0, func(x *mx) bool {
		for i := range x.t.Ctx {
			if x.t.Ctx[i].Type == model.CtxBIC {
				x.t.Ctx[i].AccountID = x.R.Hash()
				return true
			}
		}
		return false
	}},
	{"bound-mana", ps("L07"), noMana, func(x *mx) bool {
		c := x.in(func(o *model.Output) bool { return o.Kind == model.OutAccount || o.IsImplicit() })
		if c == nil {
			return false
		}
		o := x.next(c)
		if o == nil || o.Mana == 0 {
			return false
		}
		y := 1 + x.R.U64n(o.Mana)
		if x.R.Bool() {
			y = 1
		}
		o.Mana -= y
		lock := x.past() + x.P.MaxCA
		switch x.R.Intn(6) {
		case 0:
			to := x.out(func(p *model.Output) bool {
				return p != o && p.Kind != model.OutFoundry && p.Kind != model.OutDelegation && capAll(p, model.ACapMana)
			})
			if to == nil {
				return false
			}
			to.Mana += y
		case 1, 2, 3:
			b := x.basic(&model.Addr{Kind: model.AddrAccount, ID: o.ID})
			if x.R.Pct(15) {
				b.UCs[0].Addr = x.anyKey()
			} else if x.R.Pct(10) {
				b.UCs[0].Addr = &model.Addr{Kind: model.AddrRestricted, Inner: b.UCs[0].Addr, Caps: model.SetBits(1, 2)}
			}
			b.UCs = append(b.UCs, model.UC{Type: model.UCTimelock, Slot: lock - 1 + uint32(x.R.Intn(4))})
			b.Mana = y
			b.Amount = x.minAmount(b)
		case 4:
			h := x.R.Hash()
			for _, a := range x.t.Allotments {
				if x.R.Bool() {
					h = a.AccountID
				}
			}
			addAllot(x.t, h, y)
		case 5:
			addAllot(x.t, o.ID, y)
		}
		return true
	}},
	{"issuer-add", ps("L07", "L08"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return o.Kind == model.OutAccount && o.Feat(model.FBlockIssuer) == nil })
		if o == nil {
			return false
		}
		o.Feats = addFeat(o.Feats, model.Feat{Type: model.FBlockIssuer, Expiry: x.past() - 1 + uint32(x.R.Intn(3)), Keys: x.keys()})
		if c := x.prev(o); c != nil && x.R.Bool() {
			x.addCtx(model.CtxInput{Type: model.CtxBIC, AccountID: o.ID})
		}
		return true
	}},
	// staking
	{"staking-fields", ps("L08"), 0, func(x *mx) bool {
		o := x.out(hasF(model.FStaking))
		if o == nil {
			return false
		}
		f := o.Feat(model.FStaking)
		switch x.R.Intn(5) {
		case 0:
			f.Start = x.near(f.Start)
		case 1:
			f.End = x.near(f.End)
		case 2:
			f.Staked = x.nearU(f.Staked)
		case 3:
			f.FixedCost = x.nearU(f.FixedCost)
		case 4:
			f.Staked = o.Amount + uint64(x.R.Intn(2))
			x.d.fix[o] = true
		}
		return true
	}},
	{"staking-end-bound", ps("L08"), 0, func(x *mx) bool {
		o := x.out(hasF(model.FStaking))
		if o == nil || x.d.C == nil {
			return false
		}
		o.Feat(model.FStaking).End = x.P.Epoch(x.past()) + x.P.Unbonding - 1 + uint32(x.R.Intn(3))
		return true
	}},
	{"staking-remove", ps("L08"), 0, func(x *mx) bool {
		o := x.out(hasF(model.FStaking))
		if o == nil {
			return false
		}
		o.Feats = delFeat(o.Feats, model.FStaking)
		if c := x.prev(o); c != nil && x.R.Bool() {
			x.reward(c, true)
		}
		return true
	}},
	{"staking-reset", ps("L08"), 0, func(x *mx) bool {
		o := x.out(hasF(model.FStaking))
		if o == nil || x.d.C == nil {
			return false
		}
		f := o.Feat(model.FStaking)
		e := x.P.Epoch(x.past())
		f.Start, f.End = e, e+x.P.Unbonding+uint32(x.R.Intn(2))
		if c := x.prev(o); c != nil && x.R.Bool() {
			x.reward(c, true)
		}
		return true
	}},
	{"staking-add", ps("L08"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return o.Kind == model.OutAccount && o.Feat(model.FStaking) == nil })
		if o == nil {
			return false
		}
		e := x.P.Epoch(x.past())
		o.Feats = addFeat(o.Feats, model.Feat{Type: model.FStaking, Staked: x.R.U64n(o.Amount + 2), Start: e + uint32(x.R.Intn(2)), End: e + x.P.Unbonding - uint32(x.R.Intn(2))})
		return true
	}},
	{"reward-toggle", ps("L08", "L09", "L02"), 0, func(x *mx) bool {
		c := x.in(func(o *model.Output) bool { return o.Kind == model.OutAccount || o.Kind == model.OutDelegation })
		if c == nil {
			return false
		}
		has := false
		for i := range x.t.Ctx {
			y := &x.t.Ctx[i]
			if y.Type == model.CtxReward && int(y.Index) < len(x.d.Coins) && x.d.Coins[y.Index] == c {
				has = true
			}
		}
		x.reward(c, !has)
		return true
	}},
	// delegations
	{"delegation-fields", ps("L09"), 0, func(x *mx) bool {
		o := x.out(kind(model.OutDelegation))
		if o == nil {
			return false
		}
		switch x.R.Intn(7) {
		case 0:
			o.Start = x.near(o.Start)
		case 1:
			o.End = x.near(o.End)
		case 2:
			o.Delegated = x.nearU(o.Delegated)
		case 3:
			o.Validator = &model.Addr{Kind: model.AddrAccount, ID: x.R.Hash()}
		case 4:
			if x.d.C != nil {
				o.End = x.P.Epoch(x.d.C.Slot+x.P.MinCA) + uint32(x.R.Intn(2))
			}
		case 5:
			if x.d.C != nil {
				o.Start = x.P.Epoch(x.past()) + uint32(x.R.Intn(3))
			}
		case 6:
			o.Amount++
			x.d.fix[o] = true
		}
		return true
	}},
	{"delegation-again", ps("L09"), 0, func(x *mx) bool {
		c := x.in(kind(model.OutDelegation))
		if c == nil || x.d.C == nil {
			return false
		}
		o := x.next(c)
		if o == nil {
			// transition it (possibly a second time) instead of claiming
			o = model.CloneOutput(c.O)
			copy(o.ID[:], c.Chain()[1:])
			fb := x.d.C.Slot + x.P.MinCA
			o.End = x.P.Epoch(fb)
			if fb > x.P.Registration(o.End) {
				o.End++
			}
			x.t.Outputs = append(x.t.Outputs, o)
			x.reward(c, x.R.Pct(20))
			return true
		}
		// destroy without claiming, or after all claim
		x.dropOut(o)
		if x.R.Bool() {
			x.reward(c, true)
		}
		return len(x.t.Outputs) > 0
	}},
	{"delegation-same-id", ps("L09", "L06"), 0, func(x *mx) bool {
		c := x.in(kind(model.OutDelegation))
		if c == nil {
			return false
		}
		o := x.next(c)
		if o == nil {
			return false
		}
		o.ID = model.Hash{} // a "new" delegation in the place of the old one
		return true
	}},
	// senders and issuers
	{"sender", ps("L10"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool {
			return (o.Kind == model.OutBasic || o.Kind == model.OutAccount || o.Kind == model.OutNFT) && !x.d.fix[o]
		})
		if o == nil {
			return false
		}
		o.Feats = addFeat(o.Feats, model.Feat{Type: model.FSender, Addr: x.unrelated()})
		return true
	}},
	{"issuer", ps("L10"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool {
			return (o.Kind == model.OutAnchor || o.Kind == model.OutAccount || o.Kind == model.OutNFT) && x.prev(o) == nil
		})
		if o == nil {
			o = &model.Output{Kind: model.OutNFT, UCs: []model.UC{{Type: model.UCAddress, Addr: x.anyKey()}}}
			x.t.Outputs = append(x.t.Outputs, o)
		}
		o.Imm = addFeat(o.Imm, model.Feat{Type: model.FIssuer, Addr: x.unrelated()})
		o.Amount = max(o.Amount, x.minAmount(o))
		return true
	}},
	// restrictions
	{"restricted", ps("L11"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return o.Kind != model.OutFoundry })
		if o == nil {
			return false
		}
		// needs exactly these
		need := map[int]bool{}
		need[model.ACapNT] = o.Feat(model.FNativeToken) != nil
		need[model.ACapMana] = o.Mana != 0
		need[model.ACapTimelock] = o.UC(model.UCTimelock) != nil
		need[model.ACapExpiration] = o.UC(model.UCExpiration) != nil
		need[model.ACapSDR] = o.UC(model.UCSDR) != nil
		need[model.ACapAccount] = o.Kind == model.OutAccount
		need[model.ACapAnchor] = o.Kind == model.OutAnchor
		need[model.ACapNFT] = o.Kind == model.OutNFT
		need[model.ACapDelegation] = o.Kind == model.OutDelegation
		var bs, req []int
		extra := x.R.Bool()
		for i := 0; i <= 8; i++ {
			if need[i] {
				req = append(req, i)
			}
			if need[i] || extra && x.R.Bool() {
				bs = append(bs, i)
			}
		}
		if len(req) > 0 && x.R.Pct(75) {
			drop := core.Pick(x.R, req)
			var r []int
			for _, b := range bs {
				if b != drop {
					r = append(r, b)
				}
			}
			bs = r
		}
		var us []int
		for i := range o.UCs {
			switch o.UCs[i].Type {
			case model.UCAddress, model.UCStateCtrl, model.UCGovernor, model.UCExpiration, model.UCSDR:
				us = append(us, i)
			}
		}
		u := &o.UCs[core.Pick(x.R, us)]
		u.Addr = &model.Addr{Kind: model.AddrRestricted, Inner: x.plainInner(u.Addr), Caps: model.SetBits(bs...)}
		o.Amount = max(o.Amount, x.minAmount(o))
		return true
	}},
	{"restricted-fresh", ps("L11"), 0, func(x *mx) bool {
		// a fresh output with something the address might refuse
		in := x.anyKey()
		a := &model.Addr{Kind: model.AddrRestricted, Inner: in}
		c := x.R.Intn(9)
		var bs []int
		for i := 0; i <= 8; i++ {
			if i != c {
				bs = append(bs, i)
			}
		}
		if x.R.Pct(30) {
			bs = []int{c}
		}
		a.Caps = model.SetBits(bs...)
		o := &model.Output{Kind: model.OutBasic, UCs: []model.UC{{Type: model.UCAddress, Addr: a}}}
		switch c {
		case model.ACapNT:
			f := x.out(func(o *model.Output) bool { return o.Kind == model.OutBasic && o.Feat(model.FNativeToken) != nil })
			if f == nil {
				return false
			}
			f.UCs[0].Addr = a
			f.Amount = max(f.Amount, x.minAmount(f))
			return true
		case model.ACapMana:
			o.Mana = 1
		case model.ACapTimelock:
			o.UCs = append(o.UCs, model.UC{Type: model.UCTimelock, Slot: 5})
		case model.ACapExpiration:
			e := model.UC{Type: model.UCExpiration, Slot: 5, Addr: in}
			if x.R.Bool() {
				o.UCs[0].Addr, e.Addr = in, a
			}
			o.UCs = append(o.UCs, e)
		case model.ACapSDR:
			m, _ := x.P.MinReturn(in)
			o.UCs = append(o.UCs, model.UC{Type: model.UCSDR, Addr: in, Amount: m})
		case model.ACapAccount:
			o.Kind = model.OutAccount
		case model.ACapAnchor:
			o.Kind = model.OutAnchor
			o.UCs = []model.UC{{Type: model.UCStateCtrl, Addr: a}, {Type: model.UCGovernor, Addr: in}}
			if x.R.Bool() {
				o.UCs[0].Addr, o.UCs[1].Addr = in, a
			}
		case model.ACapNFT:
			o.Kind = model.OutNFT
		case model.ACapDelegation:
			if x.d.C == nil {
				return false
			}
			o.Kind = model.OutDelegation
			o.Validator = &model.Addr{Kind: model.AddrAccount, ID: x.R.Hash()}
			e := x.P.Epoch(x.past())
			o.Start = e + 1
			if x.past() > x.P.Registration(e) {
				o.Start++
			}
		}
		o.Amount = x.minAmount(o)
		o.Delegated = o.Amount
		if o.Kind != model.OutDelegation {
			o.Delegated = 0
		}
		x.t.Outputs = append(x.t.Outputs, o)
		return true
	}},
	{"restricted-caps", ps("L11", "L14"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool {
			for _, u := range o.UCs {
				if u.Addr != nil && u.Addr.Kind == model.AddrRestricted {
					return true
				}
			}
			return false
		})
		if o == nil {
			return false
		}
		for i := range o.UCs {
			if a := o.UCs[i].Addr; a != nil && a.Kind == model.AddrRestricted {
				n := *a
				n.Caps = bytes.Clone(a.Caps)
				switch x.R.Intn(5) {
				case 0:
					n.Caps = append(n.Caps, 0)
				case 1:
					n.Caps = append(n.Caps, 1, 1)
				case 2:
					n.Caps = genCaps(x.R)
				case 3:
					if len(n.Caps) > 0 {
						n.Caps[0] ^= 1 << x.R.Intn(8)
					}
				case 4:
					n.Inner = &model.Addr{Kind: model.AddrImplicit, ID: allKeys[0].Addr}
				}
				o.UCs[i].Addr = &n
				break
			}
		}
		o.Amount = max(o.Amount, x.minAmount(o))
		return true
	}},
	{"implicit", ps("L11"), 0, func(x *mx) bool {
		imp := &model.Addr{Kind: model.AddrImplicit, ID: allKeys[x.R.Intn(x.B.Keys)].Addr}
		o := x.out(func(o *model.Output) bool { return o.Kind != model.OutFoundry })
		if x.R.Pct(50) || o == nil {
			o = x.basic(imp)
			switch x.R.Intn(6) {
			case 0:
				o.UCs = append(o.UCs, model.UC{Type: model.UCTimelock, Slot: 3})
			case 1:
				o.UCs = append(o.UCs, model.UC{Type: model.UCExpiration, Slot: 3, Addr: x.anyKey()})
			case 2:
				o.Feats = addFeat(o.Feats, model.Feat{Type: model.FTag, Tag: []byte{1}})
			case 3:
				o.Feats = addFeat(o.Feats, x.meta(model.FMetadata))
			case 4:
				m, _ := x.P.MinReturn(allEd())
				o.UCs = append(o.UCs, model.UC{Type: model.UCSDR, Amount: m, Addr: allEd()})
			}
		} else {
			u := &o.UCs[x.R.Intn(len(o.UCs))]
			if u.Addr == nil {
				return false
			}
			u.Addr = imp
		}
		o.Amount = max(o.Amount, x.minAmount(o))
		return true
	}},
	{"two-implicit", ps("L11", "L07"), 0, func(x *mx) bool {
		n := 0
		for k := 0; k < 2; k++ {
			c := x.coin(func(c *Coin) bool { return c.O.IsImplicit() && c.Slot() <= x.t.CreationSlot })
			if c == nil || x.d.C == nil {
				break
			}
			x.d.Coins = append(x.d.Coins, c)
			x.t.Inputs = append(x.t.Inputs, c.ID)
			h := model.Blake(c.ID[:])
			o := &model.Output{Kind: model.OutAccount, ID: h, UCs: []model.UC{{Type: model.UCAddress, Addr: allEd()}},
				Feats: []model.Feat{{Type: model.FBlockIssuer, Expiry: x.past() + 5, Keys: x.keys()}}}
			o.Amount = max(x.minAmount(o), c.O.Amount)
			if x.R.Pct(15) {
				o.Feats = nil
			}
			// its mana stays on it
			st, ok := x.P.DecayBySlots(c.O.Mana, c.Slot(), x.t.CreationSlot)
			po, ok2 := x.P.Potential(c.O, c.Slot(), x.t.CreationSlot)
			if ok && ok2 {
				o.Mana = new(big.Int).Add(st, po).Uint64()
			}
			x.t.Outputs = append(x.t.Outputs, o)
			x.addCtx(model.CtxInput{Type: model.CtxBIC, AccountID: h})
			n++
		}
		return n > 0
	}},
	// capabilities
	{"cap-flip", ps("L12", "L03", "L02", "L06"), 0, func(x *mx) bool {
		var on []int
		for i := 0; i < 6; i++ {
			if x.t.Cap(i) {
				on = append(on, i)
			}
		}
		if len(on) > 0 && x.R.Pct(75) {
			x.setCap(core.Pick(x.R, on), false)
		} else {
			x.setCap(x.R.Intn(8), true)
		}
		return true
	}},
	{"cap-shift", ps("L12"), 0, func(x *mx) bool {
		if len(x.t.Caps) == 0 {
			return false
		}
		x.t.Caps = bytes.Clone(x.t.Caps)
		switch x.R.Intn(4) {
		case 0:
			x.t.Caps[0] <<= 1
		case 1:
			x.t.Caps[0] >>= 1
		case 2:
			x.t.Caps[0] = ^x.t.Caps[0]
		case 3:
			x.t.Caps = append([]byte{0}, x.t.Caps...)
		}
		return true
	}},
	{"cap-trailing", ps("L12", "L14"), 0, func(x *mx) bool {
		x.t.Caps = append(bytes.Clone(x.t.Caps), make([]byte, 1+x.R.Intn(2))...)
		return true
	}},
	{"burn-mana", ps("L12", "L02"), noMana, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return o.Mana > 0 && o.Kind != model.OutAccount })
		switch {
		case o != nil:
			o.Mana -= 1 + x.R.U64n(o.Mana)
		case len(x.t.Allotments) > 0:
			x.t.Allotments = x.t.Allotments[1:]
		default:
			return false
		}
		x.setCap(model.CapBurnMana, x.R.Pct(50))
		return true
	}},
	{"burn-tokens", ps("L12", "L03"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return o.Feat(model.FNativeToken) != nil && o.Kind == model.OutBasic })
		if o == nil {
			return false
		}
		o.Feats = delFeat(o.Feats, model.FNativeToken)
		x.setCap(model.CapBurnNT, x.R.Pct(50))
		return true
	}},
	{"destroy", ps("L12", "L06"), 0, func(x *mx) bool {
		c := x.in(func(o *model.Output) bool { return o.IsChain() })
		if c == nil {
			return false
		}
		o := x.next(c)
		if o == nil || len(x.t.Outputs) < 2 {
			return false
		}
		x.dropOut(o)
		own := map[byte]int{model.OutAccount: model.CapDestAccount, model.OutAnchor: model.CapDestAnchor, model.OutFoundry: model.CapDestFoundry, model.OutNFT: model.CapDestNFT}
		k, ok := own[o.Kind]
		if !ok {
			return true
		}
		switch x.R.Intn(3) {
		case 0:
			x.setCap(k, true)
		case 1:
			x.setCap(k, false)
		case 2:
			// all others
			for i := 0; i < 8; i++ {
				x.setCap(i, i != k)
			}
		}
		return true
	}},
	// storage deposit
	{"deposit", ps("L13"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return o.Kind != model.OutDelegation || o.ID == (model.Hash{}) })
		if o == nil {
			return false
		}
		m, ok := x.P.MinDeposit(o)
		if !ok {
			return false
		}
		if x.R.Pct(70) && m > 0 {
			m--
		}
		o.Amount = m
		if o.Kind == model.OutDelegation {
			o.Delegated = m
		}
		x.d.fix[o] = true
		return true
	}},
	{"deposit-grow", ps("L13"), 0, func(x *mx) bool {
		// let the content grow while the amount stays
		o := x.out(func(o *model.Output) bool { return o.Kind != model.OutFoundry && o.Kind != model.OutDelegation })
		if o == nil {
			return false
		}
		m, ok := x.P.MinDeposit(o)
		if !ok {
			return false
		}
		o.Amount = max(m, 1)
		x.d.fix[o] = true
		switch {
		case o.Feat(model.FBlockIssuer) != nil && x.R.Pct(60):
			f := o.Feat(model.FBlockIssuer)
			f.Keys = append([]model.Hash(nil), f.Keys...)
			f.Keys = append(f.Keys, model.Hash{255, 255, 255, 255, byte(len(f.Keys))})
		case o.Kind == model.OutAccount:
			o.Feats = addFeat(o.Feats, x.meta(model.FMetadata))
		case o.Kind == model.OutAnchor:
			o.Feats = addFeat(o.Feats, x.meta(model.FStateMetadata))
		default:
			switch x.R.Intn(3) {
			case 0:
				o.Feats = addFeat(o.Feats, model.Feat{Type: model.FTag, Tag: x.R.Bytes(x.R.Range(1, 64))})
			case 1:
				o.UCs[0].Addr = x.S.GenAddr(x.R, x.B, 0)
			case 2:
				if o.Kind == model.OutBasic && len(o.UCs) == 1 {
					o.UCs[0].Addr = &model.Addr{Kind: model.AddrImplicit, ID: allKeys[1].Addr}
					o.Feats = nil
				} else {
					o.Feats = addFeat(o.Feats, x.meta(model.FMetadata))
				}
			}
		}
		if x.R.Pct(30) {
			if m, ok := x.P.MinDeposit(o); ok {
				o.Amount = max(m-uint64(x.R.Intn(2)), 1)
			}
		}
		return true
	}},
	{"sdr-amount", ps("L13"), 0, func(x *mx) bool {
		o := x.out(hasU(model.UCSDR))
		if o == nil {
			o = x.basic(x.anyKey())
			o.UCs = append(o.UCs, model.UC{Type: model.UCSDR, Addr: x.S.GenAddr(x.R, x.B, 0)})
			u := o.UC(model.UCSDR)
			u.Amount, _ = x.P.MinReturn(u.Addr)
			o.Amount = max(x.minAmount(o), o.Amount)
		}
		u := o.UC(model.UCSDR)
		switch x.R.Intn(5) {
		case 0, 1:
			m, ok := x.P.MinReturn(u.Addr)
			if !ok {
				return false
			}
			u.Amount = m
			if m > 0 && x.R.Pct(70) {
				u.Amount--
			}
		case 2:
			u.Amount = o.Amount
			x.d.fix[o] = true
		case 3:
			u.Amount = o.Amount + 1
			x.d.fix[o] = true
		case 4:
			u.Amount = core.Pick(x.R, []uint64{0, ^uint64(0), 1 << 63})
		}
		return true
	}},
	{"amount-zero", ps("L13"), 0, func(x *mx) bool {
		o := x.out(any1)
		if o == nil {
			return false
		}
		o.Amount = 0
		if o.Kind == model.OutDelegation {
			o.Delegated = 0
		}
		x.d.fix[o] = true
		return true
	}},
	{"supply", ps("L13", "L01"), noBase, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return o.Kind == model.OutBasic })
		if o == nil {
			return false
		}
		sum := uint64(0)
		for _, y := range x.t.Outputs {
			if y != o {
				sum += y.Amount
			}
		}
		o.Amount = x.P.Supply - sum + uint64(x.R.Intn(2))
		return true
	}},
	// structure
	{"network", ps("L14", "B02", "L04"), 0, func(x *mx) bool {
		x.t.NetworkID ^= 1 << x.R.Intn(64)
		return true
	}},
	{"input-twice", ps("L14", "L01"), 0, func(x *mx) bool {
		c := core.Pick(x.R, x.d.Coins)
		x.d.Coins = append(x.d.Coins, c)
		x.t.Inputs = append(x.t.Inputs, c.ID)
		return true
	}},
	{"input-index", ps("L14"), 0, func(x *mx) bool {
		i := x.R.Intn(len(x.t.Inputs))
		x.t.Inputs[i][36] = byte(x.R.Range(126, 130))
		x.t.Inputs[i][37] = byte(x.R.Intn(2) * x.R.Intn(2))
		return true
	}},
	{"ctx-order", ps("L14"), noSign, func(x *mx) bool {
		n := len(x.t.Ctx)
		if n < 2 {
			if n == 1 {
				x.t.Ctx = append(x.t.Ctx, x.t.Ctx[0])
				x.resignNow()
				return true
			}
			return false
		}
		i := x.R.Intn(n - 1)
		if x.R.Bool() {
			x.t.Ctx[i], x.t.Ctx[i+1] = x.t.Ctx[i+1], x.t.Ctx[i]
		} else {
			x.t.Ctx[i+1] = x.t.Ctx[i]
		}
		x.resignNow()
		return true
	}},
	{"ctx-extra", ps("L14", "L07", "L08", "L09"), 0, func(x *mx) bool {
		switch x.R.Intn(3) {
		case 0:
			x.addCtx(model.CtxInput{Type: model.CtxBIC, AccountID: x.R.Hash()})
		case 1:
			x.addCtx(model.CtxInput{Type: model.CtxReward, Index: uint16(len(x.t.Inputs))})
		case 2:
			x.addCtx(model.CtxInput{Type: model.CtxReward, Index: uint16(x.R.Intn(len(x.t.Inputs)))})
		}
		return true
	}},
	{"allot-order", ps("L14"), noMana, func(x *mx) bool {
		n := len(x.t.Allotments)
		if n < 1 {
			return false
		}
		if n == 1 {
			if x.t.Allotments[0].Mana < 2 {
				return false
			}
			x.t.Allotments = append(x.t.Allotments, x.t.Allotments[0])
			x.t.Allotments[0].Mana--
			x.t.Allotments[1].Mana = 1
			return true
		}
		i := x.R.Intn(n - 1)
		x.t.Allotments[i], x.t.Allotments[i+1] = x.t.Allotments[i+1], x.t.Allotments[i]
		return true
	}},
	{"allot-zero", ps("L14"), noMana, func(x *mx) bool { addAllot(x.t, x.R.Hash(), 0); return true }},
	{"feature-order", ps("L14"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return len(o.Feats) > 0 })
		if o == nil {
			return false
		}
		o.Feats = append([]model.Feat(nil), o.Feats...)
		if len(o.Feats) > 1 && x.R.Pct(60) {
			o.Feats[0], o.Feats[1] = o.Feats[1], o.Feats[0]
		} else {
			o.Feats = append(o.Feats, o.Feats[len(o.Feats)-1])
			o.Amount = max(o.Amount, x.minAmount(o))
		}
		return true
	}},
	{"condition-order", ps("L14", "L05", "L01"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return len(o.UCs) > 1 })
		if o == nil {
			return false
		}
		i := x.R.Intn(len(o.UCs) - 1)
		if x.R.Pct(70) {
			o.UCs[i], o.UCs[i+1] = o.UCs[i+1], o.UCs[i]
		} else {
			o.UCs[i+1] = o.UCs[i]
		}
		return true
	}},
	{"condition-zero", ps("L14", "L05"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return o.Kind == model.OutBasic && !x.d.fix[o] })
		if o == nil {
			return false
		}
		u := o.UC(model.UCTimelock)
		if u == nil || x.R.Bool() {
			u = o.UC(model.UCExpiration)
		}
		if u == nil {
			o.UCs = []model.UC{o.UCs[0], {Type: model.UCTimelock}}
			o.Amount = max(o.Amount, x.minAmount(o))
			return true
		}
		u.Slot = 0
		return true
	}},
	{"nt-zero", ps("L14", "L03"), 0, func(x *mx) bool {
		b := x.basic(x.anyKey())
		var id model.OutputID
		id[0] = 8
		b.Feats = []model.Feat{{Type: model.FNativeToken, NTID: id, NTAmount: new(big.Int)}}
		b.Amount = x.minAmount(b)
		return true
	}},
	{"cyclic", ps("L14"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool {
			return o.Kind == model.OutAccount || o.Kind == model.OutNFT || o.Kind == model.OutAnchor
		})
		if o == nil {
			return false
		}
		k := map[byte]byte{model.OutAccount: model.AddrAccount, model.OutNFT: model.AddrNFT, model.OutAnchor: model.AddrAnchor}[o.Kind]
		a := &model.Addr{Kind: k, ID: o.ID}
		i := 0
		if o.Kind == model.OutAnchor {
			i = x.R.Intn(2)
		}
		if x.R.Pct(15) {
			a = &model.Addr{Kind: model.AddrRestricted, Inner: a, Caps: model.SetBits(0, 1, 2, 3, 4, 5, 6, 7, 8)}
		}
		o.UCs[i].Addr = a
		o.Amount = max(o.Amount, x.minAmount(o))
		return true
	}},
	{"new-counters", ps("L14", "L06"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool {
			return (o.Kind == model.OutAccount || o.Kind == model.OutAnchor) && o.ID == (model.Hash{})
		})
		if o == nil {
			return false
		}
		if o.Kind == model.OutAccount {
			o.FoundryCounter = 1
		} else {
			o.StateIndex = 1
		}
		return true
	}},
	{"metadata-size", ps("L14"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool {
			return o.Kind == model.OutBasic && !x.d.fix[o] || o.Kind == model.OutAnchor
		})
		if o == nil {
			return false
		}
		ft := byte(model.FMetadata)
		if o.Kind == model.OutAnchor && x.R.Bool() {
			ft = model.FStateMetadata
		}
		f := model.Feat{Type: ft}
		left := 8192 - 1 + x.R.Intn(3) - 1
		nEnt := x.R.Range(1, 3)
		for i := 0; i < nEnt; i++ {
			v := left - 4
			if i < nEnt-1 {
				v = left / 3
			}
			f.Entries = append(f.Entries, model.Entry{Key: string(rune('a' + i)), Value: make([]byte, v)})
			left -= v + 4
		}
		o.Feats = addFeat(o.Feats, f)
		o.Amount = max(o.Amount, x.minAmount(o))
		return true
	}},
	{"metadata-keys", ps("L14"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool { return o.Feat(model.FMetadata) != nil })
		if o == nil {
			return false
		}
		f := o.Feat(model.FMetadata)
		f.Entries = append([]model.Entry(nil), f.Entries...)
		switch x.R.Intn(5) {
		case 0:
			f.Entries = append(f.Entries, f.Entries[len(f.Entries)-1])
		case 1:
			f.Entries[0].Key = ""
		case 2:
			f.Entries[0].Key = string([]byte{byte(x.R.Intn(256))})
		case 3:
			f.Entries = append([]model.Entry{{Key: "zzzzzzzz"}}, f.Entries...)
		case 4:
			f.Entries = nil
		}
		o.Amount = max(o.Amount, x.minAmount(o))
		return true
	}},
	{"multi-address", ps("L14", "L04"), 0, func(x *mx) bool {
		o := x.out(func(o *model.Output) bool {
			u := o.UC(model.UCAddress)
			return u != nil && o.Kind == model.OutBasic && !x.d.fix[o]
		})
		if o == nil {
			return false
		}
		a := &model.Addr{Kind: model.AddrMulti, Threshold: 2}
		for i := 0; i < 2+x.R.Intn(3); i++ {
			a.Members = append(a.Members, model.Member{Addr: edAddr(allKeys[i]), Weight: 1})
		}
		a.Members = sortMembers(a.Members)
		switch x.R.Intn(9) {
		case 0:
			a.Threshold = uint16(len(a.Members)) + 1
		case 1:
			a.Threshold = 0
		case 2:
			a.Members[0].Weight = 0
		case 3:
			a.Members[0], a.Members[1] = a.Members[1], a.Members[0]
		case 4:
			a.Members[1] = a.Members[0]
		case 5:
			a.Members = a.Members[:1]
			a.Threshold = 1
		case 6:
			a.Members[0].Addr = &model.Addr{Kind: model.AddrImplicit, ID: allKeys[0].Addr}
		case 7:
			in := *a
			a = &model.Addr{Kind: model.AddrMulti, Threshold: 1, Members: []model.Member{a.Members[0], {Addr: &in, Weight: 1}}}
		}
		u := o.UC(model.UCAddress)
		u.Addr = a
		if x.R.Pct(30) {
			u.Addr = &model.Addr{Kind: model.AddrRestricted, Inner: a, Caps: model.SetBits(0, 1, 2, 3, 4)}
		}
		o.Amount = max(o.Amount, x.minAmount(o))
		return true
	}},
	{"tagged", ps("L14"), 0, func(x *mx) bool {
		x.t.Payload = &model.Tagged{Tag: x.R.Bytes(x.R.Range(60, 66)), Data: x.R.Bytes(x.R.Intn(5))}
		if x.R.Bool() {
			x.t.Payload = &model.Tagged{Data: x.R.Bytes(8190 + x.R.Intn(5))}
		}
		return true
	}},
	{"keys-order", ps("L14", "L07"), 0, func(x *mx) bool {
		o := x.out(hasF(model.FBlockIssuer))
		if o == nil {
			return false
		}
		f := o.Feat(model.FBlockIssuer)
		f.Keys = append([]model.Hash(nil), f.Keys...)
		switch {
		case len(f.Keys) > 1 && x.R.Bool():
			f.Keys[0], f.Keys[1] = f.Keys[1], f.Keys[0]
		case x.R.Bool():
			f.Keys = append(f.Keys, f.Keys[len(f.Keys)-1])
		case x.R.Bool():
			f.Keys = nil
		default:
			f.Keys = nil
			for i := 0; i < 127+x.R.Intn(3); i++ {
				f.Keys = append(f.Keys, model.Hash{byte(i)})
			}
		}
		o.Amount = max(o.Amount, x.minAmount(o))
		return true
	}},
	{"empty", ps("L14"), noBase | noMana, func(x *mx) bool {
		switch x.R.Intn(2) {
		case 0:
			x.t.Outputs = nil
		case 1:
			x.t.Inputs, x.d.Coins, x.d.Us = nil, nil, nil
		}
		return true
	}},
	{"many-outputs", ps("L14", "L15"), 0, func(x *mx) bool {
		n := 127 - len(x.t.Outputs) + x.R.Intn(3)
		a := x.anyKey()
		for i := 0; i < n; i++ {
			x.basic(a)
		}
		return true
	}},
	{"many-inputs", ps("L14", "L15", "L04"), 0, func(x *mx) bool {
		n := 0
		for _, c := range x.S.List() {
			if n < 140 && !x.spends(c) && isPlain(c.O) && c.Slot() <= x.t.CreationSlot {
				x.addInput(c)
				n++
			}
		}
		return n > 0
	}},
	{"nothing", ps("L01", "L15", "B02", "B03", "B04"), 0, func(x *mx) bool { return true }},
}

func allEd() *model.Addr { return edAddr(allKeys[0]) }

func (x *mx) plainInner(a *model.Addr) *model.Addr {
	if a.Kind == model.AddrRestricted {
		return a.Inner
	}
	if a.Kind == model.AddrImplicit {
		return edAddr(allKeys[0])
	}
	return a
}

func (x *mx) reward(c *Coin, on bool) {
	for i, y := range x.d.Coins {
		if y != c {
			continue
		}
		x.dropCtx(func(z *model.CtxInput) bool { return z.Type == model.CtxReward && int(z.Index) == i })
		if on {
			x.addCtx(model.CtxInput{Type: model.CtxReward, Index: uint16(i)})
		}
	}
}

func (x *mx) resignNow() {
	x.d.Us = SignAs(x.P, x.R, x.t, x.d.Coins, x.d.commitSlot(), x.as)
}

func addAllot(t *model.Tx, h model.Hash, y uint64) {
	m := map[model.Hash]uint64{}
	for _, a := range t.Allotments {
		m[a.AccountID] += a.Mana
	}
	m[h] += y
	setAllot(t, m)
}

func resign(u *model.Unlock, msg []byte) {
	if u.Type == model.UnlSignature {
		for _, k := range allKeys {
			if k.Pub == u.Pub {
				*u = sigUnlock(k, msg)
				return
			}
		}
	}
	if u.Type == model.UnlMulti {
		u.Subs = model.CloneUnlocks(u.Subs)
		for i := range u.Subs {
			resign(&u.Subs[i], msg)
		}
	}
}
