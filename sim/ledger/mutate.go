package ledger

import (
	"bytes"
	"math/big"
	"sort"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

// mx is a byzantine client at work on a copy of a valid transaction.
type mx struct {
	*Planner
	d    *Draft
	t    *model.Tx
	as   map[*Coin]*model.Addr // sign on behalf of
	post func(us []model.Unlock) []model.Unlock
	w    *run
}

const (
	noBase = 1 << iota
	noMana
	noSign
)

type mutator struct {
	name  string
	props []string
	flags int
	f     func(x *mx) bool
}

func (x *mx) outs(pred func(o *model.Output) bool) (r []*model.Output) {
	for _, o := range x.t.Outputs {
		if pred(o) {
			r = append(r, o)
		}
	}
	return
}

func (x *mx) out(pred func(o *model.Output) bool) *model.Output {
	os := x.outs(pred)
	if len(os) == 0 {
		return nil
	}
	return core.Pick(x.R, os)
}

func any1(*model.Output) bool { return true }
func kind(ks ...byte) func(*model.Output) bool {
	return func(o *model.Output) bool { return bytes.IndexByte(ks, o.Kind) >= 0 }
}
func hasF(t byte) func(*model.Output) bool {
	return func(o *model.Output) bool { return o.Feat(t) != nil }
}
func hasU(t byte) func(*model.Output) bool {
	return func(o *model.Output) bool { return o.UC(t) != nil }
}

func (x *mx) in(pred func(o *model.Output) bool) *Coin {
	var r []*Coin
	for _, c := range x.d.Coins {
		if pred(c.O) {
			r = append(r, c)
		}
	}
	if len(r) == 0 {
		return nil
	}
	return core.Pick(x.R, r)
}

// prev gives the consumed output an output continues.
func (x *mx) prev(o *model.Output) *Coin {
	id := o.ChainIDFor(model.OutputID{})
	for _, c := range x.d.Coins {
		if k := c.Chain(); k != "" && k == id {
			return c
		}
	}
	return nil
}

// next gives the output that continues a chain.
func (x *mx) next(c *Coin) *model.Output {
	id := c.Chain()
	for _, o := range x.t.Outputs {
		if o.IsChain() && o.ChainIDFor(model.OutputID{}) == id {
			return o
		}
	}
	return nil
}

func (x *mx) small() uint64 { return 1 + x.R.U64n(3) }

func (x *mx) coin(pred func(c *Coin) bool) *Coin {
	var r []*Coin
	for _, c := range x.S.List() {
		if !x.spends(c) && pred(c) {
			r = append(r, c)
		}
	}
	if len(r) == 0 {
		return nil
	}
	return core.Pick(x.R, r)
}

func (x *mx) spends(c *Coin) bool {
	for _, y := range x.d.Coins {
		if y == c {
			return true
		}
	}
	return false
}

func (x *mx) addInput(c *Coin) {
	x.d.Coins = append(x.d.Coins, c)
	x.t.Inputs = append(x.t.Inputs, c.ID)
	if c.O.IsChain() && c.O.Kind != model.OutFoundry && x.R.Pct(70) {
		n := model.CloneOutput(c.O)
		copy(n.ID[:], c.Chain()[1:])
		n.Mana = 0
		x.t.Outputs = append(x.t.Outputs, n)
	}
}

func (x *mx) setCommit(c *Commit) {
	x.d.C = c
	var ctx []model.CtxInput
	if c != nil {
		ctx = append(ctx, model.CtxInput{Type: model.CtxCommitment, Commit: c.ID})
	}
	for _, y := range x.t.Ctx {
		if y.Type != model.CtxCommitment {
			ctx = append(ctx, y)
		}
	}
	x.t.Ctx = ctx
}

func (x *mx) dropCtx(pred func(c *model.CtxInput) bool) bool {
	var at []int
	for i := range x.t.Ctx {
		if pred(&x.t.Ctx[i]) {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return false
	}
	i := core.Pick(x.R, at)
	x.t.Ctx = append(append([]model.CtxInput(nil), x.t.Ctx[:i]...), x.t.Ctx[i+1:]...)
	return true
}

func (x *mx) addCtx(c model.CtxInput) {
	for i := range x.t.Ctx {
		if ctxLess(&x.t.Ctx[i], &c) == 0 {
			return
		}
	}
	x.t.Ctx = append(x.t.Ctx, c)
	sort.SliceStable(x.t.Ctx, func(i, j int) bool { return ctxLess(&x.t.Ctx[i], &x.t.Ctx[j]) < 0 })
}

func ctxLess(a, b *model.CtxInput) int {
	if a.Type != b.Type {
		return int(a.Type) - int(b.Type)
	}
	if a.Type == model.CtxBIC {
		return bytes.Compare(a.AccountID[:], b.AccountID[:])
	}
	return int(a.Index) - int(b.Index)
}

func (x *mx) setCap(n int, on bool) {
	var bs []int
	for i := 0; i < 8; i++ {
		if i == n && on || i != n && x.t.Cap(i) {
			bs = append(bs, i)
		}
	}
	x.t.Caps = model.SetBits(bs...)
}

func (x *mx) dropOut(o *model.Output) {
	var r []*model.Output
	for _, y := range x.t.Outputs {
		if y != o {
			r = append(r, y)
		}
	}
	x.t.Outputs = r
}

func (x *mx) basic(a *model.Addr) *model.Output {
	o := &model.Output{Kind: model.OutBasic, UCs: []model.UC{{Type: model.UCAddress, Addr: a}}}
	o.Amount = x.minAmount(o)
	x.t.Outputs = append(x.t.Outputs, o)
	return o
}

func (x *mx) anyKey() *model.Addr { return edAddr(allKeys[x.R.Intn(len(allKeys))]) }

// rebase balances the base tokens again.
func (x *mx) rebase() {
	in, out := new(big.Int), new(big.Int)
	for _, c := range x.d.Coins {
		in.Add(in, bigU(c.O.Amount))
	}
	for _, o := range x.t.Outputs {
		out.Add(out, bigU(o.Amount))
	}
	diff := new(big.Int).Sub(in, out)
	if diff.Sign() == 0 || diff.BitLen() > 62 {
		return
	}
	d := diff.Int64()
	adjustable := func(o *model.Output) bool {
		return !x.d.fix[o] && (o.Kind != model.OutDelegation || o.ID == (model.Hash{}))
	}
	if d < 0 {
		for _, pref := range []bool{true, false} {
			for _, o := range x.t.Outputs {
				m := x.minAmount(o)
				if d < 0 && adjustable(o) && (o.Kind == model.OutBasic) == pref && o.Amount > m {
					y := min(int64(o.Amount-m), -d)
					o.Amount -= uint64(y)
					if o.Kind == model.OutDelegation && o.Delegated == o.Amount+uint64(y) {
						o.Delegated = o.Amount
					}
					d += y
				}
			}
		}
		if d < 0 {
			x.ins = x.d.Coins
			got := uint64(0)
			if x.fund(x.d, &got) {
				d += int64(got)
			}
		}
	}
	if d > 0 {
		for _, o := range x.t.Outputs {
			if adjustable(o) && o.Kind == model.OutBasic && len(o.UCs) == 1 {
				o.Amount += uint64(d)
				return
			}
		}
		o := &model.Output{Kind: model.OutBasic, UCs: []model.UC{{Type: model.UCAddress, Addr: edAddr(allKeys[0])}}}
		if uint64(d) >= x.minAmount(o) {
			o.Amount = uint64(d)
			x.t.Outputs = append(x.t.Outputs, o)
			return
		}
		for _, o := range x.t.Outputs {
			if adjustable(o) {
				o.Amount += uint64(d)
				if o.Kind == model.OutDelegation {
					o.Delegated = o.Amount
				}
				return
			}
		}
	}
}

// avail is the mana the transaction may use.
func (x *mx) avail() (*big.Int, bool) {
	if uint64(x.t.CreationSlot) > uint64(x.Now)+1<<24 { // refused anyway, and decaying over it takes long
		return nil, false
	}
	total := new(big.Int)
	for _, c := range x.d.Coins {
		st, ok := x.P.DecayBySlots(c.O.Mana, c.Slot(), x.t.CreationSlot)
		po, ok2 := x.P.Potential(c.O, c.Slot(), x.t.CreationSlot)
		if !ok || !ok2 || c.Slot() > x.t.CreationSlot {
			return nil, false
		}
		total.Add(total, st).Add(total, po)
	}
	if x.d.C != nil {
		for _, y := range x.t.Ctx {
			if y.Type == model.CtxReward && int(y.Index) < len(x.d.Coins) {
				total.Add(total, bigU(x.Env.Reward(x.d.Coins[y.Index].Chain(), x.d.C.Slot)))
			}
		}
	}
	return total, true
}

// remana balances the mana again.
func (x *mx) remana() {
	total, ok := x.avail()
	if !ok {
		return
	}
	out := new(big.Int)
	for _, o := range x.t.Outputs {
		out.Add(out, bigU(o.Mana))
	}
	for _, a := range x.t.Allotments {
		out.Add(out, bigU(a.Mana))
	}
	d := new(big.Int).Sub(total, out)
	if d.Sign() == 0 || d.BitLen() > 62 {
		return
	}
	v := d.Int64()
	if v > 0 {
		for _, o := range x.t.Outputs {
			if o.Kind == model.OutBasic && capAll(o, model.ACapMana) && !x.d.fix[o] {
				o.Mana += uint64(v)
				return
			}
		}
		if len(x.t.Allotments) > 0 {
			x.t.Allotments[0].Mana += uint64(v)
			return
		}
		for _, o := range x.t.Outputs {
			if o.Kind != model.OutFoundry && o.Kind != model.OutDelegation && capAll(o, model.ACapMana) {
				o.Mana += uint64(v)
				return
			}
		}
		x.t.Allotments = []model.Allotment{{AccountID: x.R.Hash(), Mana: uint64(v)}}
		return
	}
	for _, k := range []byte{model.OutBasic, model.OutNFT, model.OutAnchor, model.OutAccount} {
		for _, o := range x.t.Outputs {
			if o.Kind == k && o.Mana > 0 && v < 0 {
				y := min(int64(o.Mana), -v)
				o.Mana -= uint64(y)
				v += y
			}
		}
	}
	for i := 0; i < len(x.t.Allotments) && v < 0; i++ {
		y := min(int64(x.t.Allotments[i].Mana), -v)
		x.t.Allotments[i].Mana -= uint64(y)
		v += y
		if x.t.Allotments[i].Mana == 0 {
			x.t.Allotments = append(x.t.Allotments[:i:i], x.t.Allotments[i+1:]...)
			i--
		}
	}
}

// mutate derives a byzantine variant of a draft.
func (w *run) mutate(pl *Planner, d *Draft) (*Draft, string) {
	r := pl.R
	for try := 0; try < 12; try++ {
		m := w.muts[r.Weighted(w.mutW...)]
		x := &mx{Planner: pl, d: d.Clone(), as: map[*Coin]*model.Addr{}, w: w}
		x.t = x.d.Tx
		if !w.try(m, x) {
			continue
		}
		name := m.name
		if r.Pct(6) {
			// two wrongs
			m2 := w.muts[r.Weighted(w.mutW...)]
			if w.try(m2, x) {
				name += "+" + m2.name
				m.flags |= m2.flags
			}
		}
		if m.flags&noBase == 0 && !r.Pct(8) {
			x.rebase()
		}
		if m.flags&noMana == 0 && !r.Pct(8) {
			x.remana()
		}
		if m.flags&noSign == 0 && !r.Pct(3) {
			x.d.Us = SignAs(pl.P, r, x.t, x.d.Coins, x.d.commitSlot(), x.as)
		}
		if x.post != nil {
			func() {
				// what does not fit after a second mutation is left alone
				defer func() { _ = recover() }()
				x.d.Us = x.post(x.d.Us)
			}()
		}
		return x.d, name
	}
	return nil, ""
}

// try applies a mutator. One that does not fit what a previous one left behind is given up.
func (w *run) try(m mutator, x *mx) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			w.c.Count("mutator-gave-up." + m.name)
			ok = false
		}
	}()
	return m.f(x)
}

func (w *run) chooseMutators() {
	w.muts = mutators
	for i := range w.muts {
		wt := 1
		for _, p := range w.muts[i].props {
			if p == w.c.Prop {
				wt = 9
			}
		}
		w.mutW = append(w.mutW, wt)
	}
}

func isPlain(o *model.Output) bool {
	return o.Kind == model.OutBasic && len(o.UCs) == 1 && len(o.Feats) == 0
}

func (x *mx) past() uint32 {
	if x.d.C == nil {
		return 0
	}
	return x.d.C.Slot + x.P.MaxCA
}

func (x *mx) near(v uint32) uint32 {
	return v + []uint32{1, ^uint32(0), 2, 5}[x.R.Weighted(4, 4, 1, 1)]
}

func (x *mx) nearU(v uint64) uint64 {
	switch x.R.Weighted(4, 4, 1, 1) {
	case 0:
		return v + 1
	case 1:
		return v - 1
	case 2:
		return v + x.R.U64n(1000)
	}
	return v / 2
}

func (x *mx) nearBig(v *big.Int) *big.Int {
	d := big.NewInt([]int64{1, -1, 7}[x.R.Weighted(4, 4, 1)])
	if x.R.Pct(35) {
		d = x.pow2(v)
	}
	n := new(big.Int).Add(v, d)
	if n.Sign() < 0 {
		n = big.NewInt(1)
	}
	if n.BitLen() > 256 {
		n.Sub(n, big.NewInt(2))
	}
	return n
}

// pow2 gives a power of two (sometimes minus) that can be taken from or added to the value: the width of some word, often.
func (x *mx) pow2(v *big.Int) *big.Int {
	k := uint(core.Pick(x.R, []int{8, 16, 32, 63, 64, 64, 65, 128, 192, 255, x.R.Intn(256)}))
	d := new(big.Int).Lsh(big.NewInt(1), k)
	if v.Cmp(d) > 0 && x.R.Pct(65) {
		return d.Neg(d)
	}
	return d
}

// unrelated gives an address that the transaction does not unlock (usually).
func (x *mx) unrelated() *model.Addr {
	r := x.R
	var c []*model.Addr
	c = append(c, x.anyKey())
	for _, coin := range x.d.Coins {
		for i := range coin.O.UCs {
			a := coin.O.UCs[i].Addr
			if a == nil {
				continue
			}
			c = append(c, a.Resolve(), a)
			if a.Resolve().Kind == model.AddrMulti {
				for _, m := range a.Resolve().Members {
					c = append(c, m.Addr)
				}
			}
		}
		if a := coin.O.ChainAddr(coin.ID); a != nil {
			c = append(c, a)
		}
		if coin.O.IsImplicit() {
			c = append(c, &model.Addr{Kind: model.AddrAccount, ID: model.Blake(coin.ID[:])})
		}
	}
	for _, o := range x.t.Outputs {
		if o.Kind == model.OutAccount || o.Kind == model.OutNFT || o.Kind == model.OutAnchor {
			if o.ID != (model.Hash{}) {
				c = append(c, o.ChainAddr(model.OutputID{}))
			}
		}
		if u := o.UC(model.UCAddress); u != nil {
			c = append(c, u.Addr)
		}
	}
	c = append(c, x.S.chainAddrs()...)
	a := core.Pick(r, c)
	if r.Pct(15) && a.Kind != model.AddrRestricted && a.Kind != model.AddrImplicit {
		return &model.Addr{Kind: model.AddrRestricted, Inner: a, Caps: genCaps(r)}
	}
	if r.Pct(8) && a.Kind == model.AddrEd25519 {
		// the same key in an implicit account creation address
		return &model.Addr{Kind: model.AddrImplicit, ID: a.ID}
	}
	return a
}

func (x *mx) needSig(pred func(u *model.Unlock, i int) bool) []int {
	var r []int
	for i := range x.d.Us {
		if pred(&x.d.Us[i], i) {
			r = append(r, i)
		}
	}
	return r
}

// sigOf makes a signature unlock over the present content.
func (x *mx) sigOf(k *Key) model.Unlock {
	return sigUnlock(k, model.SigningMessage(x.t))
}
