package model

import (
	"bytes"
	"math/bits"
)

// Viol is a violated rule together with the properties the rule is part of.
type Viol struct {
	Rule  string
	Props []string
}

// Viols collects violated rules.
type Viols []Viol

func (v *Viols) add(rule string, props ...string) {
	for _, x := range *v {
		if x.Rule == rule {
			return
		}
	}
	*v = append(*v, Viol{rule, props})
}

// Has tells whether one of the violated rules belongs to the property.
func (v Viols) Has(prop string) bool {
	for _, x := range v {
		for _, p := range x.Props {
			if p == prop {
				return true
			}
		}
	}
	return false
}

func (v Viols) String() string {
	s := ""
	for i, x := range v {
		if i > 0 {
			s += ";"
		}
		s += x.Rule
	}
	return s
}

// CheckSyntax evaluates all context free rules for a decoded signed transaction.
func (p *Params) CheckSyntax(s *SignedTx) (v Viols) {
	t := s.Tx
	if len(s.Unlocks) != len(t.Inputs) {
		v.add("unlock-count", "L04", "L14")
	}
	if n := len(t.Caps); n > 0 && t.Caps[n-1] == 0 {
		v.add("caps-trailing-zero", "L12", "L14")
	}
	if t.NetworkID != p.NetworkID() {
		v.add("network-id", "L14", "B02", "L04")
	}
	seen := map[OutputID]bool{}
	for _, in := range t.Inputs {
		if seen[in] {
			v.add("duplicate-input", "L14", "L01", "L04", "L02", "L06")
		}
		seen[in] = true
		if int(in[36])|int(in[37])<<8 > 127 {
			v.add("input-index", "L14")
		}
	}
	hasCommit := t.Commitment() != nil
	for i := range t.Ctx {
		c := &t.Ctx[i]
		if i > 0 && ctxCompare(&t.Ctx[i-1], c) >= 0 {
			v.add("context-inputs-order", "L14")
		}
		switch c.Type {
		case CtxReward:
			if int(c.Index) >= len(t.Inputs) {
				v.add("reward-index", "L14", "L08", "L09")
			}
			if !hasCommit {
				v.add("reward-without-commitment", "L14", "L08", "L09")
			}
		case CtxBIC:
			if !hasCommit {
				v.add("bic-without-commitment", "L14", "L07")
			}
		}
	}
	sum, over := uint64(0), uint64(0)
	for i, a := range t.Allotments {
		if i > 0 && bytes.Compare(t.Allotments[i-1].AccountID[:], a.AccountID[:]) >= 0 {
			v.add("allotments-order", "L14")
		}
		sum, over = bits.Add64(sum, a.Mana, 0)
		if over != 0 || sum > p.MaxMana() {
			v.add("allotted-mana", "L14", "L02")
			break
		}
	}
	p.checkOutputs(t, hasCommit, &v)
	checkUnlocks(s.Unlocks, &v)
	return v
}

func ctxCompare(a, b *CtxInput) int {
	if a.Type != b.Type {
		return int(a.Type) - int(b.Type)
	}
	switch a.Type {
	case CtxBIC:
		return bytes.Compare(a.AccountID[:], b.AccountID[:])
	case CtxReward:
		return int(a.Index) - int(b.Index)
	}
	return 0
}

func metaSize(f *Feat) int {
	n := 1
	for _, e := range f.Entries {
		n += 1 + len(e.Key) + 2 + len(e.Value)
	}
	return n
}

func (p *Params) checkOutputs(t *Tx, hasCommit bool, v *Viols) {
	total, over := uint64(0), uint64(0)
	mana := uint64(0)
	chains := map[string]bool{}
	manaBad, sumBad := false, false
	for _, o := range t.Outputs {
		for i := 1; i < len(o.UCs); i++ {
			if o.UCs[i-1].Type >= o.UCs[i].Type {
				v.add("unlock-conditions-order", "L14")
			}
		}
		for _, fs := range [][]Feat{o.Feats, o.Imm} {
			for i := 1; i < len(fs); i++ {
				if fs[i-1].Type >= fs[i].Type {
					v.add("features-order", "L14")
				}
			}
		}
		for _, ft := range []byte{FMetadata, FStateMetadata} {
			if f := o.Feat(ft); f != nil && metaSize(f) > 8192 {
				v.add("metadata-size", "L14")
			}
		}
		if o.Amount == 0 {
			v.add("amount-zero", "L13", "L01")
		}
		total, over = bits.Add64(total, o.Amount, 0)
		sumBad = sumBad || over != 0 || total > p.Supply
		if m, ok := p.MinDeposit(o); !ok || o.Amount < m {
			v.add("storage-deposit", "L13")
		}
		if r := o.UC(UCSDR); r != nil {
			if m, ok := p.MinReturn(r.Addr); !ok || r.Amount < m {
				v.add("return-below-min-deposit", "L13")
			}
			if r.Amount > o.Amount {
				v.add("return-above-amount", "L13")
			}
		}
		if u := o.UC(UCExpiration); u != nil && u.Slot == 0 {
			v.add("expiration-zero", "L14", "L05")
		}
		if u := o.UC(UCTimelock); u != nil && u.Slot == 0 {
			v.add("timelock-zero", "L14", "L05")
		}
		if f := o.Feat(FNativeToken); f != nil && f.NTAmount.Sign() == 0 {
			v.add("native-token-zero", "L14", "L03")
		}
		mana, over = bits.Add64(mana, o.Mana, 0)
		manaBad = manaBad || over != 0 || mana > p.MaxMana()
		if o.IsChain() && (o.Kind == OutFoundry || o.ID != (Hash{})) {
			id := o.ChainIDFor(OutputID{})
			if chains[id] {
				v.add("chain-twice", "L06", "L14", "L03")
			}
			chains[id] = true
		}
		switch o.Kind {
		case OutFoundry:
			if o.MaxSupply.Sign() == 0 {
				v.add("max-supply-zero", "L03", "L14")
			}
			d := sub(o.Minted, o.Melted)
			if d.Sign() < 0 || d.Cmp(o.MaxSupply) > 0 {
				v.add("minted-melted-max", "L03", "L14")
			}
			if f := o.Feat(FNativeToken); f != nil && f.NTID != o.FoundryID() {
				v.add("foundry-native-token-id", "L03", "L14")
			}
		case OutAccount:
			if o.ID == (Hash{}) && o.FoundryCounter != 0 {
				v.add("new-account-counter", "L14", "L06", "L03")
			}
			if a := o.UC(UCAddress).Addr; a.Kind == AddrAccount && a.ID == o.ID {
				v.add("account-cyclic", "L14")
			}
			if f := o.Feat(FStaking); f != nil {
				if o.Amount < f.Staked {
					v.add("staked-above-amount", "L08", "L14")
				}
				if o.Feat(FBlockIssuer) == nil {
					v.add("staking-without-issuer", "L08", "L14")
				}
				if !hasCommit {
					v.add("staking-without-commitment", "L08", "L14")
				}
			}
			if o.Feat(FBlockIssuer) != nil && !hasCommit {
				v.add("issuer-without-commitment", "L07", "L14")
			}
		case OutAnchor:
			if o.ID == (Hash{}) {
				if o.StateIndex != 0 {
					v.add("new-anchor-index", "L14", "L06")
				}
			} else {
				for _, u := range o.UCs {
					if u.Addr.Kind == AddrAnchor && u.Addr.ID == o.ID {
						v.add("anchor-cyclic", "L14")
					}
				}
			}
		case OutNFT:
			if a := o.UC(UCAddress).Addr; o.ID != (Hash{}) && a.Kind == AddrNFT && a.ID == o.ID {
				v.add("nft-cyclic", "L14")
			}
		case OutDelegation:
			if o.Validator.ID == (Hash{}) {
				v.add("delegation-validator-empty", "L14", "L09")
			}
			if !hasCommit {
				v.add("delegation-without-commitment", "L14", "L09")
			}
		}
		p.checkRestrictions(o, v)
	}
	if sumBad {
		v.add("outputs-above-supply", "L13", "L01")
	}
	if manaBad {
		v.add("stored-mana-max", "L02", "L14")
	}
}

func (p *Params) checkRestrictions(o *Output, v *Viols) {
	for i := range o.UCs {
		u := &o.UCs[i]
		switch u.Type {
		case UCAddress, UCStateCtrl, UCGovernor, UCExpiration:
		default:
			continue
		}
		a := u.Addr
		no := func(bad bool, n int, what string) {
			if bad && !a.Cap(n) {
				v.add("restricted-"+what, "L11")
			}
		}
		no(o.Feat(FNativeToken) != nil, ACapNT, "native-token")
		no(o.Mana != 0, ACapMana, "mana")
		no(o.UC(UCTimelock) != nil, ACapTimelock, "timelock")
		no(o.UC(UCExpiration) != nil, ACapExpiration, "expiration")
		no(o.UC(UCSDR) != nil, ACapSDR, "storage-return")
		no(o.Kind == OutAccount, ACapAccount, "account")
		no(o.Kind == OutAnchor, ACapAnchor, "anchor")
		no(o.Kind == OutNFT, ACapNFT, "nft")
		no(o.Kind == OutDelegation, ACapDelegation, "delegation")
	}
}

func checkUnlocks(us []Unlock, v *Viols) {
	const bad = "unlocks"
	fail := func(r string) { v.add(bad+"-"+r, "L04", "L14") }
	sigs, refs, multis := map[int]bool{}, map[int]bool{}, map[int]bool{}
	signers, inMulti := map[Hash]bool{}, map[Hash]bool{}
	multiBytes := map[string]bool{}
	chainable := func(u *Unlock) bool { return u.Type == UnlAccount || u.Type == UnlAnchor || u.Type == UnlNFT }
	for i := range us {
		u := &us[i]
		switch u.Type {
		case UnlSignature:
			if signers[u.Pub] || inMulti[u.Pub] {
				fail("signer-twice")
			}
			sigs[i], signers[u.Pub] = true, true
		case UnlReference, UnlAccount, UnlAnchor, UnlNFT:
			r := int(u.Ref)
			if refs[r] {
				if !chainable(u) {
					fail("reference-to-reference")
				}
			} else if !sigs[r] && !multis[r] {
				fail("reference-nowhere")
			}
			refs[i] = true
		case UnlMulti:
			w := &W{}
			w.Unlock(u)
			if multiBytes[string(w.B)] {
				fail("multi-twice")
			}
			for j := range u.Subs {
				su := &u.Subs[j]
				switch su.Type {
				case UnlSignature:
					if signers[su.Pub] {
						fail("signer-twice")
					}
					inMulti[su.Pub] = true
				case UnlReference, UnlAccount, UnlAnchor, UnlNFT:
					r := int(su.Ref)
					if refs[r] {
						if !chainable(su) {
							fail("reference-to-reference")
						}
					} else if !sigs[r] {
						fail("reference-nowhere")
					}
				case UnlMulti:
					fail("nested-multi")
				}
			}
			multis[i], multiBytes[string(w.B)] = true, true
		case UnlEmpty:
			fail("empty")
		}
	}
}
