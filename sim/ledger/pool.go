package ledger

import (
	"verif.local/sim/core"
	"verif.local/sim/model"
)

// Pool holds objects of a ledger history made without any real code, as raw material for other simulations.
type Pool struct {
	P       *model.Params
	Blocks  [][]byte // the model finds nothing wrong with them
	Coins   []*Coin
	Commits []*model.Commitment
	Bias    *Bias
	S       *State
	Cases   []*Case
	w       *run
}

// Harvest lets clients use a ledger for a while.
func Harvest(c *core.Ctx, r *core.RNG, n int) *Pool {
	w := &run{c: c, cs: commits{}, cut: map[int]bool{}, alone: true}
	w.p = GenParams(r)
	w.p.StorageCost = core.Pick(r, []uint64{0, 0, 1, 10})
	w.env = stubEnv{r.U64()}
	w.bias = genBias(r, c.Prop)
	w.bias.Mutate = 0
	w.byslot = map[uint32][]byte{}
	w.s = NewState(w.p)
	w.genesis(r)
	w.rng = r.Fork()
	w.slot = w.p.GenesisSlot
	c.SetNow(w.p.SlotStart(w.slot))
	w.closeSlot(w.slot)
	w.advance(w.slot + uint32(r.Range(0, int(w.p.MaxCA)*2)))
	pool := &Pool{P: w.p, Bias: w.bias, S: w.s, w: w}
	seen := map[model.OutputID]bool{}
	for i := 0; i < n; i++ {
		w.rng = r.Fork()
		var b []byte
		var m *MV
		switch w.rng.Intn(5) {
		case 0:
			blk := w.blockAt(w.slot)
			w.payload(blk)
			w.sign(blk)
			b = model.EncBlock(blk)
			m = modelJudge(w.p, w.s, w.cs, w.env, b)
		default:
			m = w.opTx(nil)
			if m != nil {
				b = w.oldB[len(w.oldB)-1]
			}
		}
		if m != nil && m.OK() {
			pool.Blocks = append(pool.Blocks, b)
			if m.Stage == "ok" {
				pool.remember(b, m)
			}
		}
		for _, x := range w.s.List() {
			if !seen[x.ID] {
				seen[x.ID] = true
				pool.Coins = append(pool.Coins, x)
			}
		}
		if w.rng.Pct(30) {
			w.advance(w.slot + uint32(w.rng.Range(1, 4)))
		}
		if w.prev != nil {
			pool.Commits = append(pool.Commits, w.prev)
		}
	}
	return pool
}

// payload makes a block's content random.
func (w *run) payload(b *model.Block) {
	r := w.rng
	switch r.Intn(4) {
	case 0:
		b.PayloadKind = model.PayloadTagged
		b.Tagged = &model.Tagged{Tag: r.Bytes(r.Intn(65)), Data: r.Bytes(r.Intn(1 << uint(r.Intn(13))))}
	case 1:
		b.PayloadKind = model.PayloadCandidacy
	case 2:
		b.BodyType = model.BodyValidation
		b.HighestVersion = b.Version + byte(r.Intn(3))
		b.ParamsHash = r.Hash()
	}
}

// Fresh makes more blocks.
func (p *Pool) Fresh(r *core.RNG) []byte {
	p.w.rng = r
	b := p.w.blockAt(p.w.slot)
	p.w.payload(b)
	p.w.sign(b)
	return model.EncBlock(b)
}

// Addr draws an address.
func (p *Pool) Addr(r *core.RNG) *model.Addr { return p.S.GenAddr(r, p.Bias, 0) }

// Damage alters bytes as a bad link or disk does.
func Damage(r *core.RNG, b []byte) []byte { return damage(r, b) }

// FreshOf makes a block of another protocol version.
func (p *Pool) FreshOf(r *core.RNG, v byte) *model.Block {
	p.w.rng = r
	b := p.w.blockAt(p.w.slot)
	b.Version = v
	p.w.payload(b)
	if b.BodyType == model.BodyValidation {
		b.HighestVersion = v
	}
	p.w.sign(b)
	return b
}
