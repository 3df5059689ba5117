package ledger

import (
	"crypto/ed25519"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

// ownerOf gives the address that should unlock an input, given what the transaction does.
func ownerOf(p *model.Params, t *model.Tx, c *Coin, commit *uint32) *model.Addr {
	o := c.O
	var a *model.Addr
	switch o.Kind {
	case model.OutAnchor:
		a = o.UC(model.UCGovernor).Addr
		id := c.Chain()
		txid := model.ID36{}
		for i, n := range t.Outputs {
			if n.Kind == model.OutAnchor && n.ChainIDFor(model.OutID(txid, uint16(i))) == id && n.StateIndex == o.StateIndex+1 {
				a = o.UC(model.UCStateCtrl).Addr
			}
		}
	case model.OutFoundry:
		a = o.UC(model.UCImmAccount).Addr
	default:
		a = o.UC(model.UCAddress).Addr
	}
	if e := o.UC(model.UCExpiration); e != nil && commit != nil && *commit+p.MinCA >= e.Slot {
		a = e.Addr
	}
	return a.Resolve()
}

// Sign builds the unlocks of a transaction for its inputs in their order, as a wallet that holds all keys would.
// Where an input can not be unlocked a plausible but wrong unlock is made.
func Sign(p *model.Params, r *core.RNG, t *model.Tx, coins []*Coin, commit *uint32) []model.Unlock {
	return SignAs(p, r, t, coins, commit, nil)
}

// SignAs is Sign where some inputs are unlocked on behalf of another address than their owner.
func SignAs(p *model.Params, r *core.RNG, t *model.Tx, coins []*Coin, commit *uint32, as map[*Coin]*model.Addr) []model.Unlock {
	msg := model.SigningMessage(t)
	sigAt := map[model.Hash]int{} // by key address
	chainAt := map[string]int{}
	multiAt := map[string]int{}
	sig := func(k *Key) model.Unlock {
		u := model.Unlock{Type: model.UnlSignature, Pub: k.Pub}
		copy(u.Sig[:], ed25519.Sign(k.Priv, msg))
		return u
	}
	chainType := map[byte]byte{model.AddrAccount: model.UnlAccount, model.AddrAnchor: model.UnlAnchor, model.AddrNFT: model.UnlNFT}
	var us []model.Unlock
	for i, c := range coins {
		a := ownerOf(p, t, c, commit)
		if x := as[c]; x != nil {
			a = x.Resolve()
		}
		var u model.Unlock
		switch {
		case a.IsDirect():
			k := keyByAddr[a.ID]
			if k == nil {
				k = allKeys[0]
			}
			if at, ok := sigAt[k.Addr]; ok {
				u = model.Unlock{Type: model.UnlReference, Ref: uint16(at)}
			} else {
				u = sig(k)
				sigAt[k.Addr] = i
			}
		case a.IsChain():
			u = model.Unlock{Type: chainType[a.Kind], Ref: uint16(chainAt[a.Key()])}
		default:
			if at, ok := multiAt[a.Key()]; ok {
				u = model.Unlock{Type: model.UnlReference, Ref: uint16(at)}
				break
			}
			u = model.Unlock{Type: model.UnlMulti, Subs: make([]model.Unlock, len(a.Members))}
			for j := range u.Subs {
				u.Subs[j].Type = model.UnlEmpty
			}
			order := make([]int, len(a.Members))
			for j := range order {
				order[j] = j
			}
			r.Shuffle(len(order), func(x, y int) { order[x], order[y] = order[y], order[x] })
			more := r.Pct(25)
			sum := 0
			for _, j := range order {
				if sum >= int(a.Threshold) && !more {
					break
				}
				m := a.Members[j]
				if m.Addr.IsChain() {
					at, ok := chainAt[m.Addr.Key()]
					if !ok {
						continue
					}
					u.Subs[j] = model.Unlock{Type: chainType[m.Addr.Kind], Ref: uint16(at)}
				} else if k := keyByAddr[m.Addr.ID]; k != nil {
					if at, ok := sigAt[k.Addr]; ok {
						u.Subs[j] = model.Unlock{Type: model.UnlReference, Ref: uint16(at)}
					} else {
						u.Subs[j] = sig(k)
					}
				} else {
					continue
				}
				sum += int(m.Weight)
			}
			multiAt[a.Key()] = i
		}
		us = append(us, u)
		if ca := c.O.ChainAddr(c.ID); ca != nil {
			if c.O.Kind != model.OutAnchor || a.Equal(c.O.UC(model.UCStateCtrl).Addr.Resolve()) && transitionsState(t, c) {
				chainAt[ca.Key()] = i
			}
		}
	}
	return us
}

func transitionsState(t *model.Tx, c *Coin) bool {
	id := c.Chain()
	for i, n := range t.Outputs {
		if n.Kind == model.OutAnchor && n.ChainIDFor(model.OutID(model.ID36{}, uint16(i))) == id && n.StateIndex == c.O.StateIndex+1 {
			return true
		}
	}
	return false
}

func sigUnlock(k *Key, msg []byte) model.Unlock {
	u := model.Unlock{Type: model.UnlSignature, Pub: k.Pub}
	copy(u.Sig[:], ed25519.Sign(k.Priv, msg))
	return u
}
