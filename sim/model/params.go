package model

import (
	"encoding/binary"
	"math/big"
	"math/bits"
)

// Params are protocol parameters (version 3).
type Params struct {
	Version     byte
	NetworkName string
	HRP         string

	StorageCost    uint64
	FactorData     byte
	OffOutput      uint64
	OffIssuerKey   uint64
	OffStaking     uint64
	OffDelegation  uint64
	WDataByte      uint32
	WBlock         uint32
	WInput         uint32
	WContextInput  uint32
	WOutput        uint32
	WNativeToken   uint32
	WStaking       uint32
	WBlockIssuer   uint32
	WAllotment     uint32
	WSignature     uint32
	ManaBits       byte
	GenRate        byte
	GenRateExp     byte
	DecayFactors   []uint32
	DecayExp       byte
	EpochsSum      uint32
	EpochsSumExp   byte
	AnnualDecay    byte
	Supply         uint64
	GenesisSlot    uint32
	GenesisUnix    int64
	SlotDuration   byte
	SPE            byte
	Unbonding      uint32
	ValBlocks      byte
	Punishment     uint32
	LivenessLow    uint16
	LivenessHigh   uint16
	MinCA          uint32
	MaxCA          uint32
	EpochNearing   uint32
	MinRMC         uint64
	RMCInc         uint64
	RMCDec         uint64
	IncThr         uint32
	DecThr         uint32
	SchedulerRate  uint32
	MaxBuf         uint32
	MaxValBuf      uint32
	VSWindow       byte
	VSTarget       byte
	VSOffset       byte
	ProfitMargin   byte
	Bootstrapping  uint32
	RewardGenRatio byte
	InitialReward  uint64
	FinalReward    uint64
	PoolCoeff      byte
	Retention      uint16
	CommitteeSize  byte
	ChainSwitching byte
}

// Bytes is the wire form of the parameters.
func (p *Params) Bytes() []byte {
	w := &W{}
	w.U8(0)
	w.U8(p.Version)
	w.U8(byte(len(p.NetworkName)))
	w.Raw([]byte(p.NetworkName))
	w.U8(byte(len(p.HRP)))
	w.Raw([]byte(p.HRP))
	w.U64(p.StorageCost)
	w.U8(p.FactorData)
	w.U64(p.OffOutput)
	w.U64(p.OffIssuerKey)
	w.U64(p.OffStaking)
	w.U64(p.OffDelegation)
	for _, x := range []uint32{p.WDataByte, p.WBlock, p.WInput, p.WContextInput, p.WOutput, p.WNativeToken, p.WStaking, p.WBlockIssuer, p.WAllotment, p.WSignature} {
		w.U32(x)
	}
	w.U8(p.ManaBits)
	w.U8(p.GenRate)
	w.U8(p.GenRateExp)
	w.U16(uint16(len(p.DecayFactors)))
	for _, f := range p.DecayFactors {
		w.U32(f)
	}
	w.U8(p.DecayExp)
	w.U32(p.EpochsSum)
	w.U8(p.EpochsSumExp)
	w.U8(p.AnnualDecay)
	w.U64(p.Supply)
	w.U32(p.GenesisSlot)
	w.U64(uint64(p.GenesisUnix))
	w.U8(p.SlotDuration)
	w.U8(p.SPE)
	w.U32(p.Unbonding)
	w.U8(p.ValBlocks)
	w.U32(p.Punishment)
	w.U16(p.LivenessLow)
	w.U16(p.LivenessHigh)
	w.U32(p.MinCA)
	w.U32(p.MaxCA)
	w.U32(p.EpochNearing)
	w.U64(p.MinRMC)
	w.U64(p.RMCInc)
	w.U64(p.RMCDec)
	for _, x := range []uint32{p.IncThr, p.DecThr, p.SchedulerRate, p.MaxBuf, p.MaxValBuf} {
		w.U32(x)
	}
	w.U8(p.VSWindow)
	w.U8(p.VSTarget)
	w.U8(p.VSOffset)
	w.U8(p.ProfitMargin)
	w.U32(p.Bootstrapping)
	w.U8(p.RewardGenRatio)
	w.U64(p.InitialReward)
	w.U64(p.FinalReward)
	w.U8(p.PoolCoeff)
	w.U16(p.Retention)
	w.U8(p.CommitteeSize)
	w.U8(p.ChainSwitching)
	return w.B
}

// NetworkID is the first eight bytes of the hash of the network name.
func (p *Params) NetworkID() uint64 {
	h := Blake([]byte(p.NetworkName))
	return binary.LittleEndian.Uint64(h[:8])
}

// MaxMana is the largest amount of mana.
func (p *Params) MaxMana() uint64 {
	if p.ManaBits >= 64 {
		return ^uint64(0)
	}
	return 1<<p.ManaBits - 1
}

// SlotFromTime gives the slot of a time in Unix nanoseconds; times past the last slot map to it.
func (p *Params) SlotFromTime(ns uint64) uint32 {
	t := new(big.Int).SetInt64(int64(ns))
	g := new(big.Int).Mul(big.NewInt(p.GenesisUnix), big.NewInt(1e9))
	t.Sub(t, g)
	if t.Sign() < 0 {
		return p.GenesisSlot
	}
	t.Div(t, new(big.Int).Mul(big.NewInt(int64(p.SlotDuration)), big.NewInt(1e9)))
	t.Add(t, big.NewInt(int64(p.GenesisSlot)+1))
	if !t.IsUint64() || t.Uint64() > 1<<32-1 {
		return 1<<32 - 1
	}
	return uint32(t.Uint64())
}

// SlotStart gives the first nanosecond of a slot after the genesis slot, and the last one of the genesis slot.
func (p *Params) SlotStart(slot uint32) int64 {
	if slot <= p.GenesisSlot {
		return p.GenesisUnix*1e9 - 1
	}
	return (p.GenesisUnix + int64(slot-p.GenesisSlot-1)*int64(p.SlotDuration)) * 1e9
}

func (p *Params) Epoch(slot uint32) uint32 {
	if slot <= p.GenesisSlot {
		return 0
	}
	return (slot - p.GenesisSlot) >> p.SPE
}

func (p *Params) EpochStart(e uint32) uint32 { return p.GenesisSlot + e<<p.SPE }
func (p *Params) EpochEnd(e uint32) uint32   { return p.EpochStart(e+1) - 1 }

// Registration is the slot at whose end the delegations for the next epoch are settled.
func (p *Params) Registration(e uint32) uint32 { return p.EpochEnd(e) - p.EpochNearing }

func (p *Params) offsetOutput() uint64 { return p.OffOutput + uint64(p.FactorData)*(38+36+4) }

// implicitOffset makes an implicit account as expensive as a minimal block issuer account.
func (p *Params) implicitOffset() uint64 {
	key := &Addr{}
	acc := &Output{Kind: OutAccount, UCs: []UC{{Type: UCAddress, Addr: key}}, Feats: []Feat{{Type: FBlockIssuer, Keys: make([]Hash, 1)}}}
	bas := &Output{Kind: OutBasic, UCs: []UC{{Type: UCAddress, Addr: key}}}
	a := uint64(p.FactorData)*uint64(len(EncOutput(acc))) + p.OffIssuerKey
	b := uint64(p.FactorData) * uint64(len(EncOutput(bas)))
	return a - b
}

// StorageScore of an output.
func (p *Params) StorageScore(o *Output) uint64 {
	s := p.offsetOutput() + uint64(p.FactorData)*uint64(len(EncOutput(o)))
	if f := o.Feat(FBlockIssuer); f != nil {
		s += p.OffIssuerKey * uint64(len(f.Keys))
	}
	if o.Feat(FStaking) != nil {
		s += p.OffStaking
	}
	if o.Kind == OutDelegation {
		s += p.OffDelegation
	}
	imp := func(a *Addr) {
		if a != nil && a.Kind == AddrImplicit {
			s += p.implicitOffset()
		}
	}
	for i := range o.UCs {
		imp(o.UCs[i].Addr)
	}
	for i := range o.Feats {
		imp(o.Feats[i].Addr)
	}
	for i := range o.Imm {
		imp(o.Imm[i].Addr)
	}
	return s
}

// MinDeposit of an output, false on overflow.
func (p *Params) MinDeposit(o *Output) (uint64, bool) {
	hi, lo := bits.Mul64(p.StorageCost, p.StorageScore(o))
	return lo, hi == 0
}

// MinReturn is the minimum deposit of an output that returns tokens to an address.
func (p *Params) MinReturn(a *Addr) (uint64, bool) {
	return p.MinDeposit(&Output{Kind: OutBasic, UCs: []UC{{Type: UCAddress, Addr: a}}})
}

func (p *Params) scale(v *big.Int, factor uint64, scale uint) *big.Int {
	r := new(big.Int).Mul(v, new(big.Int).SetUint64(factor))
	return r.Rsh(r, scale)
}

// Decay of mana over a number of epochs.
func (p *Params) Decay(v *big.Int, epochs uint32) *big.Int {
	n := uint32(len(p.DecayFactors))
	if n == 0 || v.Sign() == 0 {
		return v
	}
	if v.IsUint64() && p.DecayExp < 64 {
		x := v.Uint64()
		for epochs > 0 && x > 0 {
			d := min(epochs, n)
			hi, lo := bits.Mul64(x, uint64(p.DecayFactors[d-1]))
			x = hi<<(64-p.DecayExp) | lo>>p.DecayExp
			epochs -= d
		}
		return new(big.Int).SetUint64(x)
	}
	r := new(big.Int).Set(v)
	for epochs > 0 && r.Sign() > 0 {
		d := min(epochs, n)
		r = p.scale(r, uint64(p.DecayFactors[d-1]), uint(p.DecayExp))
		epochs -= d
	}
	return r
}

// DecayBySlots decays stored mana.
func (p *Params) DecayBySlots(v uint64, from, to uint32) (*big.Int, bool) {
	a, b := p.Epoch(from), p.Epoch(to)
	if a > b {
		return nil, false
	}
	return p.Decay(new(big.Int).SetUint64(v), b-a), true
}

func (p *Params) gen(amount uint64, slots uint32) *big.Int {
	return p.scale(new(big.Int).SetUint64(amount), uint64(slots)*uint64(p.GenRate), uint(p.GenRateExp))
}

// Generate gives the mana generated by base tokens between two slots, decayed.
// ok is false where the result is not representable.
func (p *Params) Generate(amount uint64, from, to uint32) (res *big.Int, ok bool) {
	if from > to {
		return nil, false
	}
	a, b := p.Epoch(from), p.Epoch(to)
	// slots before the start of the next epoch, and since the start of the last one
	first := p.EpochStart(a+1) - from
	last := to - p.EpochStart(b)
	if from < p.GenesisSlot {
		first = 0
	}
	if to < p.GenesisSlot {
		last = 0
	}
	switch b - a {
	case 0:
		return fit(p.gen(amount, to-from))
	case 1:
		r := p.Decay(p.gen(amount, first), 1)
		return fit(new(big.Int).Add(r, p.gen(amount, last)))
	}
	n := b - a
	r := new(big.Int).Set(p.Decay(p.gen(amount, first), n))
	c := p.scale(new(big.Int).SetUint64(amount), uint64(p.EpochsSum)*uint64(p.GenRate), uint(p.EpochsSumExp)+uint(p.GenRateExp)-uint(p.SPE))
	c2 := p.Decay(c, n-1)
	r.Add(r, c).Sub(r, c2)
	r.Add(r, p.gen(amount, last))
	r.Sub(r, new(big.Int).Rsh(c, uint(p.DecayExp)))
	if c2.Cmp(c) > 0 {
		return nil, false
	}
	return fit(r)
}

func fit(v *big.Int) (*big.Int, bool) {
	if v.Sign() < 0 || v.BitLen() > 64 {
		return nil, false
	}
	return v, true
}

// Potential is the mana an output generated by a slot.
func (p *Params) Potential(o *Output, from, to uint32) (*big.Int, bool) {
	m, ok := p.MinDeposit(o)
	if !ok {
		return nil, false
	}
	if o.Amount <= m {
		// still, time must not run backwards
		if from > to {
			return nil, false
		}
		return new(big.Int), true
	}
	return p.Generate(o.Amount-m, from, to)
}

// WorkScore of a block, not wrapped.
func (p *Params) WorkScore(b *Block) *big.Int {
	s := new(big.Int)
	add := func(f uint32, n int) { s.Add(s, new(big.Int).Mul(big.NewInt(int64(f)), big.NewInt(int64(n)))) }
	if b.BodyType == BodyValidation {
		return s
	}
	add(p.WBlock, 1)
	switch b.PayloadKind {
	case PayloadTagged:
		add(p.WDataByte, 1+1+len(b.Tagged.Tag)+4+len(b.Tagged.Data))
	case PayloadCandidacy:
		add(p.WDataByte, 1)
	case PayloadTx:
		s.Add(s, p.TxWork(b.Tx))
	}
	return s
}

// TxWork is the work score of a signed transaction.
func (p *Params) TxWork(t *SignedTx) *big.Int {
	s := new(big.Int)
	add := func(f uint32, n int) { s.Add(s, new(big.Int).Mul(big.NewInt(int64(f)), big.NewInt(int64(n)))) }
	add(p.WDataByte, len(EncSigned(t)))
	add(p.WContextInput, len(t.Tx.Ctx))
	add(p.WInput, len(t.Tx.Inputs))
	add(p.WAllotment, len(t.Tx.Allotments))
	for _, o := range t.Tx.Outputs {
		add(p.WOutput, 1)
		if o.Feat(FNativeToken) != nil {
			add(p.WNativeToken, 1)
		}
		if o.Kind == OutFoundry {
			add(p.WNativeToken, 1)
		}
		if o.Feat(FStaking) != nil {
			add(p.WStaking, 1)
		}
		if o.Feat(FBlockIssuer) != nil {
			add(p.WBlockIssuer, 1)
		}
	}
	for i := range t.Unlocks {
		u := &t.Unlocks[i]
		if u.Type == UnlSignature {
			add(p.WSignature, 1)
		}
		for j := range u.Subs {
			if u.Subs[j].Type == UnlSignature {
				add(p.WSignature, 1)
			}
		}
	}
	return s
}

// ManaCost of a block for a reference mana cost; false on overflow.
func (p *Params) ManaCost(b *Block, rmc uint64) (uint64, bool) {
	w := p.WorkScore(b)
	if w.BitLen() > 32 {
		return 0, false
	}
	hi, lo := bits.Mul64(rmc, w.Uint64())
	return lo, hi == 0
}
