package ledger

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"sort"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

// Key is a key of one of the simulated parties.
type Key struct {
	Priv ed25519.PrivateKey
	Pub  [32]byte
	Addr model.Hash // hash of the public key
}

func newKey(seed []byte) *Key {
	k := &Key{Priv: ed25519.NewKeyFromSeed(seed)}
	copy(k.Pub[:], k.Priv.Public().(ed25519.PublicKey))
	k.Addr = model.Blake(k.Pub[:])
	return k
}

// Keys are the same in all runs: deriving them costs more than using them.
var allKeys = func() (ks []*Key) {
	for i := 0; i < 10; i++ {
		s := model.Blake([]byte(fmt.Sprintf("key %d", i)))
		ks = append(ks, newKey(s[:]))
	}
	return
}()

var keyByAddr = func() map[model.Hash]*Key {
	m := map[model.Hash]*Key{}
	for _, k := range allKeys {
		m[k.Addr] = k
	}
	return m
}()

// Coin is an unspent output.
type Coin struct {
	ID  model.OutputID
	O   *model.Output
	B   []byte
	Seq int
}

func (c *Coin) Chain() string { return c.O.ChainIDFor(c.ID) }
func (c *Coin) Slot() uint32  { return model.SlotOfOutput(c.ID) }

// State is the reference ledger.
type State struct {
	P      *model.Params
	Coins  map[model.OutputID]*Coin
	Chains map[string]*Coin
	Dead   map[string]bool
	Burned map[model.OutputID]*big.Int // native tokens burned, per token
	Spent  []*Coin                     // for replays
	seq    int
}

func NewState(p *model.Params) *State {
	return &State{P: p, Coins: map[model.OutputID]*Coin{}, Chains: map[string]*Coin{}, Dead: map[string]bool{}, Burned: map[model.OutputID]*big.Int{}}
}

func (s *State) Add(id model.OutputID, o *model.Output) *Coin {
	s.seq++
	c := &Coin{ID: id, O: o, B: model.EncOutput(o), Seq: s.seq}
	s.Coins[id] = c
	if k := c.Chain(); k != "" {
		s.Chains[k] = c
	}
	return c
}

// List gives all coins in creation order.
func (s *State) List() []*Coin {
	r := make([]*Coin, 0, len(s.Coins))
	for _, c := range s.Coins {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Seq < r[j].Seq })
	return r
}

// Apply an accepted transaction. It returns what is wrong with the history, if anything.
func (s *State) Apply(t *model.Tx) (bad string, props []string) {
	txid := model.TxID(t)
	consumed := map[string]bool{}
	in := map[model.OutputID]*big.Int{}
	nt := func(o *model.Output, sign int64) {
		if f := o.Feat(model.FNativeToken); f != nil {
			if in[f.NTID] == nil {
				in[f.NTID] = new(big.Int)
			}
			in[f.NTID].Add(in[f.NTID], new(big.Int).Mul(f.NTAmount, big.NewInt(sign)))
		}
	}
	touched := map[model.OutputID]bool{}
	for _, id := range t.Inputs {
		c := s.Coins[id]
		nt(c.O, 1)
		if k := c.Chain(); k != "" {
			consumed[k] = true
			delete(s.Chains, k)
			if c.O.Kind == model.OutFoundry {
				touched[c.O.FoundryID()] = true
			}
		}
		delete(s.Coins, id)
		s.Spent = append(s.Spent, c)
	}
	if len(s.Spent) > 64 {
		s.Spent = s.Spent[len(s.Spent)-64:]
	}
	produced := map[string]bool{}
	for i, o := range t.Outputs {
		nt(o, -1)
		id := model.OutID(txid, uint16(i))
		k := o.ChainIDFor(id)
		if k != "" {
			if s.Chains[k] != nil || produced[k] {
				return "two unspent outputs of one chain", []string{"L06", "L03"}
			}
			if s.Dead[k] {
				return "destroyed chain reappeared", []string{"L06", "L03"}
			}
			produced[k] = true
			if o.Kind == model.OutFoundry {
				touched[o.FoundryID()] = true
			}
		}
		s.Add(id, o)
	}
	for k := range consumed {
		if !produced[k] {
			s.Dead[k] = true
		}
	}
	for id, d := range in {
		if !touched[id] && d.Sign() > 0 {
			if s.Burned[id] == nil {
				s.Burned[id] = new(big.Int)
			}
			s.Burned[id].Add(s.Burned[id], d)
		}
	}
	return "", nil
}

// Invariants over the whole ledger.
func (s *State) Invariants() (bad string, props []string) {
	sum := new(big.Int)
	supply := map[model.OutputID]*big.Int{}
	for _, c := range s.List() {
		sum.Add(sum, bigU(c.O.Amount))
		if f := c.O.Feat(model.FNativeToken); f != nil {
			if supply[f.NTID] == nil {
				supply[f.NTID] = new(big.Int)
			}
			supply[f.NTID].Add(supply[f.NTID], f.NTAmount)
		}
	}
	if sum.Cmp(bigU(s.P.Supply)) != 0 {
		return fmt.Sprintf("base tokens %v differ from supply %d", sum, s.P.Supply), []string{"L01"}
	}
	for _, c := range s.List() {
		if c.O.Kind != model.OutFoundry {
			continue
		}
		circ := new(big.Int).Sub(c.O.Minted, c.O.Melted)
		if circ.Cmp(c.O.MaxSupply) > 0 || circ.Sign() < 0 {
			return "foundry counters out of bounds", []string{"L03"}
		}
		id := c.O.FoundryID()
		have := new(big.Int)
		if supply[id] != nil {
			have.Set(supply[id])
		}
		if s.Burned[id] != nil {
			have.Add(have, s.Burned[id])
		}
		if have.Cmp(circ) != 0 {
			return fmt.Sprintf("native tokens: in ledger and burned %v, foundry says %v", have, circ), []string{"L03", "L12"}
		}
	}
	return "", nil
}

// Address helpers.

func edAddr(k *Key) *model.Addr { return &model.Addr{Kind: model.AddrEd25519, ID: k.Addr} }

// SortMembers orders the members of a multi address and drops repeated ones.
func SortMembers(ms []model.Member) []model.Member { return sortMembers(ms) }

func sortMembers(ms []model.Member) []model.Member {
	sort.Slice(ms, func(i, j int) bool {
		return bytes.Compare(model.EncAddr(ms[i].Addr), model.EncAddr(ms[j].Addr)) < 0
	})
	var r []model.Member
	for i, m := range ms {
		if i == 0 || !m.Addr.Equal(ms[i-1].Addr) {
			r = append(r, m)
		}
	}
	return r
}

// chainAddrs lists the addresses of all chains in the ledger that can own things.
func (s *State) chainAddrs() (as []*model.Addr) {
	for _, c := range s.List() {
		if a := c.O.ChainAddr(c.ID); a != nil {
			as = append(as, a)
		} else if c.O.IsImplicit() {
			h := model.Blake(c.ID[:])
			as = append(as, &model.Addr{Kind: model.AddrAccount, ID: h})
		}
	}
	return
}

// multiAddrs lists the multi addresses that own something.
func (s *State) multiAddrs() (as []*model.Addr) {
	for _, c := range s.List() {
		if u := c.O.UC(model.UCAddress); u != nil && u.Addr.Resolve().Kind == model.AddrMulti {
			as = append(as, u.Addr.Resolve())
		}
	}
	return
}

// GenAddr draws an address that somebody can unlock (mostly).
func (s *State) GenAddr(r *core.RNG, b *Bias, depth int) *model.Addr {
	chains := []*model.Addr(nil)
	if depth < 2 {
		chains = s.chainAddrs()
	}
	ed := func() *model.Addr { return edAddr(allKeys[r.Intn(b.Keys)]) }
	switch r.Weighted(b.AEd, b.AChain, b.AMulti, b.ARestr) {
	case 1:
		if len(chains) > 0 {
			return core.Pick(r, chains)
		}
	case 2:
		if depth < 2 {
			if r.Pct(45) {
				// one that owns something already
				if ms := s.multiAddrs(); len(ms) > 0 {
					return core.Pick(r, ms)
				}
			}
			n := r.Range(2, 4)
			if r.Pct(3) {
				n = r.Range(2, 10)
			}
			a := &model.Addr{Kind: model.AddrMulti}
			sum := 0
			for i := 0; i < n; i++ {
				m := model.Member{Addr: ed(), Weight: byte(r.Range(1, 4))}
				if r.Pct(3) {
					m.Weight = byte(r.Range(1, 255))
				}
				if len(chains) > 0 && r.Pct(30) {
					m.Addr = core.Pick(r, chains)
				}
				a.Members = append(a.Members, m)
			}
			a.Members = sortMembers(a.Members)
			for len(a.Members) < 2 {
				a.Members = sortMembers(append(a.Members, model.Member{Addr: ed(), Weight: 1}))
			}
			for _, m := range a.Members {
				sum += int(m.Weight)
			}
			a.Threshold = uint16(r.Range(1, sum))
			if r.Pct(30) {
				a.Threshold = uint16(sum)
			}
			return a
		}
	case 3:
		if depth < 2 {
			bb := *b
			bb.ARestr = 0
			in := s.GenAddr(r, &bb, depth+1)
			return &model.Addr{Kind: model.AddrRestricted, Inner: in, Caps: genCaps(r)}
		}
	}
	return ed()
}

func genCaps(r *core.RNG) []byte {
	switch r.Intn(4) {
	case 0:
		return nil
	case 1:
		return model.SetBits(0, 1, 2, 3, 4, 5, 6, 7, 8)
	case 2:
		// all but one
		x := r.Intn(9)
		var bs []int
		for i := 0; i < 9; i++ {
			if i != x {
				bs = append(bs, i)
			}
		}
		return model.SetBits(bs...)
	}
	var bs []int
	for i := 0; i < 9; i++ {
		if r.Bool() {
			bs = append(bs, i)
		}
	}
	return model.SetBits(bs...)
}
