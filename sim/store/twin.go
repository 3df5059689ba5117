package store

import (
	"bytes"

	iotago "github.com/iotaledger/iota.go/v4"
	"verif.local/sim/core"
	"verif.local/sim/model"
)

// equal asks an object whether it is equal to another; objects without an opinion are passed over.
func equal(a, b any) (eq, ok bool) {
	switch x := a.(type) {
	case iotago.Output:
		if y, is := b.(iotago.Output); is {
			return x.Equal(y), true
		}
	case iotago.Address:
		if y, is := b.(iotago.Address); is {
			return x.Equal(y), true
		}
	case iotago.BlockIssuerKey:
		if y, is := b.(iotago.BlockIssuerKey); is {
			return x.Equal(y), true
		}
	case iotago.UnlockCondition:
		if y, is := b.(iotago.UnlockCondition); is {
			return x.Equal(y), true
		}
	case iotago.Feature:
		if y, is := b.(iotago.Feature); is {
			return x.Equal(y), true
		}
	}
	return false, false
}

// twins compares an object with copies of itself that came back over the wire, intact or with something else in them:
// two objects are equal if and only if their bytes are, whichever of them is asked.
func (w *run) twins(r *core.RNG, o *object) {
	c := w.c
	if o == nil || o.v == nil || len(o.b) == 0 {
		return
	}
	if _, ok := equal(o.v, o.v); !ok {
		return
	}
	check := func(v, u any, vb, ub []byte, what string) {
		eq, ok := equal(v, u)
		if !ok {
			return
		}
		c.Evals++
		if want := bytes.Equal(vb, ub); eq != want {
			c.FailFor([]string{"B03"}, "equal", "%s %s: equal=%v for\n%x and\n%x", o.k.name, what, eq, vb, ub)
		}
		if back, _ := equal(u, v); back != eq {
			c.FailFor([]string{"B03"}, "equal-one-way", "%s %s: equal=%v one way and %v the other for\n%x and\n%x", o.k.name, what, eq, back, vb, ub)
		}
	}
	look := func(u any, ub []byte) {
		check(o.v, u, o.b, ub, "as a whole")
		a, isA := o.v.(iotago.TxEssenceOutput)
		b, isB := u.(iotago.TxEssenceOutput)
		if !isA || !isB {
			return
		}
		enc := func(x any) []byte {
			e, err := w.m.n.api.Encode(x)
			if err != nil {
				return nil
			}
			return e
		}
		for i := iotago.UnlockConditionType(0); i < 8; i++ {
			x, y := a.UnlockConditionSet()[i], b.UnlockConditionSet()[i]
			if x != nil && y != nil {
				if xb, yb := enc(x), enc(y); xb != nil && yb != nil {
					check(x, y, xb, yb, "unlock condition")
				}
			}
		}
		for i := iotago.FeatureType(0); i < 8; i++ {
			x, y := a.FeatureSet()[i], b.FeatureSet()[i]
			if x != nil && y != nil {
				if xb, yb := enc(x), enc(y); xb != nil && yb != nil {
					check(x, y, xb, yb, "feature")
				}
			}
		}
	}
	for k := 0; k < 12; k++ {
		b := append([]byte(nil), o.b...)
		for n := r.Intn(3); n > 0; n-- {
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		}
		w.guard("comparing", o, b, func() {
			u, used, err := o.k.dec(w.m.n, b)
			if err != nil || used != len(b) {
				return
			}
			if e, err := o.k.enc(w.m.n, u); err != nil || !bytes.Equal(e, b) {
				return // reported elsewhere
			}
			c.Count("twins")
			look(u, b)
		})
	}
	for k := 0; k < 6; k++ {
		if b := sibling(r, o); b != nil {
			w.guard("comparing", o, b, func() {
				u, used, err := o.k.dec(w.m.n, b)
				if err != nil || used != len(b) {
					return
				}
				if e, err := o.k.enc(w.m.n, u); err != nil || !bytes.Equal(e, b) {
					return
				}
				c.Count("siblings")
				look(u, b)
			})
		}
	}
	if other := w.comparable(r); other != nil && other.k == o.k {
		w.guard("comparing", o, other.b, func() { look(other.v, other.b) })
	}
}

// comparable gives an object that can tell whether it is equal to another.
func (w *run) comparable(r *core.RNG) *object {
	for i := 0; i < 12; i++ {
		o := w.m.modelled(r)
		if o.k == kOutput || o.k == kAddr || o.k == kKey {
			w.made(o)
			return o
		}
	}
	return nil
}

// sibling gives the bytes of an object that differs from another in one place, which a flipped bit may not reach.
func sibling(r *core.RNG, o *object) []byte {
	switch o.k {
	case kAddr:
		d := &model.R{B: o.b}
		a := d.Addr()
		if d.Err != nil {
			return nil
		}
		return model.EncAddr(addrSibling(r, a))
	case kOutput:
		x, err := model.DecOutput(o.b)
		if err != nil {
			return nil
		}
		x = model.CloneOutput(x)
		switch r.Intn(4) {
		case 0, 1:
			x.UCs = append([]model.UC(nil), x.UCs...)
			u := &x.UCs[r.Intn(len(x.UCs))]
			if u.Addr == nil || u.Type == model.UCImmAccount {
				return nil
			}
			u.Addr = addrSibling(r, u.Addr)
		case 2:
			fs := &x.Feats
			if r.Bool() {
				fs = &x.Imm
			}
			if len(*fs) == 0 {
				return nil
			}
			*fs = append([]model.Feat(nil), *fs...)
			i := r.Intn(len(*fs))
			f := &(*fs)[i]
			switch {
			case r.Pct(30):
				*fs = append((*fs)[:i], (*fs)[i+1:]...)
			case f.Addr != nil:
				f.Addr = addrSibling(r, f.Addr)
			case len(f.Entries) > 0:
				f.Entries = append([]model.Entry(nil), f.Entries...)
				e := &f.Entries[r.Intn(len(f.Entries))]
				if r.Bool() {
					e.Value = append(append([]byte(nil), e.Value...), 0)
				} else {
					e.Value = r.Bytes(len(e.Value))
				}
			case len(f.Tag) > 0:
				f.Tag = append(append([]byte(nil), f.Tag...), 0)
			default:
				return nil
			}
		case 3:
			if len(x.UCs) < 2 || x.Kind == model.OutAnchor {
				return nil
			}
			x.UCs = append([]model.UC(nil), x.UCs[:len(x.UCs)-1]...)
		}
		return model.EncOutput(x)
	}
	return nil
}

func addrSibling(r *core.RNG, a *model.Addr) *model.Addr {
	b := *a
	switch {
	case a.Kind == model.AddrRestricted && r.Pct(70):
		switch r.Intn(3) {
		case 0:
			b.Caps = nil
		case 1:
			b.Caps = model.SetBits(0, 1, 2, 3, 4, 5, 6, 7, 8)
		case 2:
			b.Caps = model.SetBits(r.Intn(9))
		}
	case a.Kind == model.AddrRestricted:
		b.Inner = addrSibling(r, a.Inner)
	case a.Kind == model.AddrMulti:
		b.Members = append([]model.Member(nil), a.Members...)
		switch r.Intn(3) {
		case 0:
			b.Threshold++
		case 1:
			b.Members[r.Intn(len(b.Members))].Weight++
		case 2:
			b.Members = b.Members[:len(b.Members)-1]
		}
	default:
		// the same bytes in another kind of address
		b.Kind = core.Pick(r, []byte{model.AddrEd25519, model.AddrAccount, model.AddrNFT, model.AddrAnchor, model.AddrImplicit})
	}
	if r.Pct(15) && a.Kind != model.AddrRestricted && a.Kind != model.AddrImplicit {
		return &model.Addr{Kind: model.AddrRestricted, Inner: a, Caps: model.SetBits(r.Intn(9))}
	}
	return &b
}
