package model

import (
	"encoding/binary"
	"math/big"

	"golang.org/x/crypto/blake2b"
)

// Blake is the hash function of the protocol.
func Blake(parts ...[]byte) Hash {
	if len(parts) == 1 {
		return blake2b.Sum256(parts[0])
	}
	var all []byte
	for _, p := range parts {
		all = append(all, p...)
	}
	return blake2b.Sum256(all)
}

type W struct{ B []byte }

func (w *W) U8(v byte)    { w.B = append(w.B, v) }
func (w *W) U16(v uint16) { w.B = binary.LittleEndian.AppendUint16(w.B, v) }
func (w *W) U32(v uint32) { w.B = binary.LittleEndian.AppendUint32(w.B, v) }
func (w *W) U64(v uint64) { w.B = binary.LittleEndian.AppendUint64(w.B, v) }
func (w *W) Raw(b []byte) { w.B = append(w.B, b...) }
func (w *W) U256(v *big.Int) {
	var be [32]byte
	x := v
	if x == nil {
		x = new(big.Int)
	}
	if x.Sign() < 0 || x.BitLen() > 256 { // an attacker's arithmetic, wrapped
		x = new(big.Int).And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)))
	}
	x.FillBytes(be[:])
	for i := 31; i >= 0; i-- {
		w.B = append(w.B, be[i])
	}
}

func EncAddr(a *Addr) []byte { w := &W{}; w.Addr(a); return w.B }

func (w *W) Addr(a *Addr) {
	w.U8(a.Kind)
	switch a.Kind {
	case AddrMulti:
		w.U8(byte(len(a.Members)))
		for _, m := range a.Members {
			w.Addr(m.Addr)
			w.U8(m.Weight)
		}
		w.U16(a.Threshold)
	case AddrRestricted:
		w.Addr(a.Inner)
		w.U8(byte(len(a.Caps)))
		w.Raw(a.Caps)
	default:
		w.Raw(a.ID[:])
	}
}

func (w *W) UC(u *UC) {
	w.U8(u.Type)
	switch u.Type {
	case UCAddress, UCStateCtrl, UCGovernor, UCImmAccount:
		w.Addr(u.Addr)
	case UCSDR:
		w.Addr(u.Addr)
		w.U64(u.Amount)
	case UCTimelock:
		w.U32(u.Slot)
	case UCExpiration:
		w.Addr(u.Addr)
		w.U32(u.Slot)
	}
}

func (w *W) Feat(f *Feat) {
	w.U8(f.Type)
	switch f.Type {
	case FSender, FIssuer:
		w.Addr(f.Addr)
	case FMetadata, FStateMetadata:
		w.U8(byte(len(f.Entries)))
		for _, e := range f.Entries {
			w.U8(byte(len(e.Key)))
			w.Raw([]byte(e.Key))
			w.U16(uint16(len(e.Value)))
			w.Raw(e.Value)
		}
	case FTag:
		w.U8(byte(len(f.Tag)))
		w.Raw(f.Tag)
	case FNativeToken:
		w.Raw(f.NTID[:])
		w.U256(f.NTAmount)
	case FBlockIssuer:
		w.U32(f.Expiry)
		w.U8(byte(len(f.Keys)))
		for _, k := range f.Keys {
			w.U8(0)
			w.Raw(k[:])
		}
	case FStaking:
		w.U64(f.Staked)
		w.U64(f.FixedCost)
		w.U32(f.Start)
		w.U32(f.End)
	}
}

func (w *W) UCs(us []UC) {
	w.U8(byte(len(us)))
	for i := range us {
		w.UC(&us[i])
	}
}

func (w *W) Feats(fs []Feat) {
	w.U8(byte(len(fs)))
	for i := range fs {
		w.Feat(&fs[i])
	}
}

func EncOutput(o *Output) []byte { w := &W{}; w.Output(o); return w.B }

func (w *W) Output(o *Output) {
	w.U8(o.Kind)
	w.U64(o.Amount)
	switch o.Kind {
	case OutBasic:
		w.U64(o.Mana)
	case OutAccount:
		w.U64(o.Mana)
		w.Raw(o.ID[:])
		w.U32(o.FoundryCounter)
	case OutAnchor:
		w.U64(o.Mana)
		w.Raw(o.ID[:])
		w.U32(o.StateIndex)
	case OutFoundry:
		w.U32(o.Serial)
		w.U8(0)
		w.U256(o.Minted)
		w.U256(o.Melted)
		w.U256(o.MaxSupply)
	case OutNFT:
		w.U64(o.Mana)
		w.Raw(o.ID[:])
	case OutDelegation:
		w.U64(o.Delegated)
		w.Raw(o.ID[:])
		w.Addr(o.Validator)
		w.U32(o.Start)
		w.U32(o.End)
	}
	w.UCs(o.UCs)
	if o.Kind != OutDelegation {
		w.Feats(o.Feats)
	}
	if o.Kind == OutAccount || o.Kind == OutAnchor || o.Kind == OutFoundry || o.Kind == OutNFT {
		w.Feats(o.Imm)
	}
}

// Essence writes the transaction without its outputs.
func (w *W) Essence(t *Tx) {
	w.U64(t.NetworkID)
	w.U32(t.CreationSlot)
	w.U16(uint16(len(t.Ctx)))
	for i := range t.Ctx {
		c := &t.Ctx[i]
		w.U8(c.Type)
		switch c.Type {
		case CtxCommitment:
			w.Raw(c.Commit[:])
		case CtxBIC:
			w.Raw(c.AccountID[:])
		case CtxReward:
			w.U16(c.Index)
		}
	}
	w.U16(uint16(len(t.Inputs)))
	for _, in := range t.Inputs {
		w.U8(0)
		w.Raw(in[:])
	}
	w.U16(uint16(len(t.Allotments)))
	for _, a := range t.Allotments {
		w.Raw(a.AccountID[:])
		w.U64(a.Mana)
	}
	w.U8(byte(len(t.Caps)))
	w.Raw(t.Caps)
	w.Payload(func(w *W) {
		if t.Payload != nil {
			w.U8(PayloadTagged)
			w.TaggedBody(t.Payload)
		}
	})
}

func (w *W) TaggedBody(t *Tagged) {
	w.U8(byte(len(t.Tag)))
	w.Raw(t.Tag)
	w.U32(uint32(len(t.Data)))
	w.Raw(t.Data)
}

func (w *W) Payload(f func(*W)) {
	in := &W{}
	f(in)
	w.U32(uint32(len(in.B)))
	w.Raw(in.B)
}

func EncEssence(t *Tx) []byte { w := &W{}; w.Essence(t); return w.B }

func EncTx(t *Tx) []byte { w := &W{}; w.Tx(t); return w.B }

func (w *W) Tx(t *Tx) {
	w.Essence(t)
	w.U16(uint16(len(t.Outputs)))
	for _, o := range t.Outputs {
		w.Output(o)
	}
}

func (w *W) Unlock(u *Unlock) {
	w.U8(u.Type)
	switch u.Type {
	case UnlSignature:
		w.U8(0)
		w.Raw(u.Pub[:])
		w.Raw(u.Sig[:])
	case UnlReference, UnlAccount, UnlAnchor, UnlNFT:
		w.U16(u.Ref)
	case UnlMulti:
		w.U8(byte(len(u.Subs)))
		for i := range u.Subs {
			w.Unlock(&u.Subs[i])
		}
	}
}

// EncSigned writes a signed transaction including its payload type byte.
func EncSigned(s *SignedTx) []byte { w := &W{}; w.Signed(s); return w.B }

func (w *W) Signed(s *SignedTx) {
	w.U8(PayloadTx)
	w.Tx(s.Tx)
	w.U16(uint16(len(s.Unlocks)))
	for i := range s.Unlocks {
		w.Unlock(&s.Unlocks[i])
	}
}

func (w *W) Header(b *Block) {
	w.U8(b.Version)
	w.U64(b.NetworkID)
	w.U64(b.IssuingTime)
	w.Raw(b.Commitment[:])
	w.U32(b.Finalized)
	w.Raw(b.Issuer[:])
}

func (w *W) Body(b *Block) {
	w.U8(b.BodyType)
	for _, l := range [][]ID36{b.Strong, b.Weak, b.Shallow} {
		w.U8(byte(len(l)))
		for _, p := range l {
			w.Raw(p[:])
		}
	}
	if b.BodyType == BodyValidation {
		w.U8(b.HighestVersion)
		w.Raw(b.ParamsHash[:])
		return
	}
	w.Payload(func(w *W) {
		switch b.PayloadKind {
		case PayloadTx:
			w.Signed(b.Tx)
		case PayloadTagged:
			w.U8(PayloadTagged)
			w.TaggedBody(b.Tagged)
		case PayloadCandidacy:
			w.U8(PayloadCandidacy)
		}
	})
	w.U64(b.MaxBurned)
}

func EncHeader(b *Block) []byte { w := &W{}; w.Header(b); return w.B }
func EncBody(b *Block) []byte   { w := &W{}; w.Body(b); return w.B }

func EncBlock(b *Block) []byte {
	w := &W{}
	w.Header(b)
	w.Body(b)
	w.U8(0)
	w.Raw(b.Pub[:])
	w.Raw(b.Sig[:])
	return w.B
}

func EncCommitment(c *Commitment) []byte {
	w := &W{}
	w.U8(c.Version)
	w.U32(c.Slot)
	w.Raw(c.Prev[:])
	w.Raw(c.Roots[:])
	w.U64(c.Weight)
	w.U64(c.RMC)
	return w.B
}

func withSlot(h Hash, slot uint32) ID36 {
	var id ID36
	copy(id[:], h[:])
	binary.LittleEndian.PutUint32(id[32:], slot)
	return id
}

func CommitmentID(c *Commitment) ID36 { return withSlot(Blake(EncCommitment(c)), c.Slot) }

// Merkle computes the tree hash of RFC 6962 shape.
func Merkle(leaves [][]byte) Hash {
	switch len(leaves) {
	case 0:
		return Blake(nil)
	case 1:
		return Blake([]byte{0}, leaves[0])
	}
	k := 1
	for k*2 < len(leaves) {
		k *= 2
	}
	l, r := Merkle(leaves[:k]), Merkle(leaves[k:])
	return Blake([]byte{1}, l[:], r[:])
}

// TxID of a transaction.
func TxID(t *Tx) ID36 {
	ess := Blake(EncEssence(t))
	var leaves [][]byte
	for _, o := range t.Outputs {
		leaves = append(leaves, EncOutput(o))
	}
	m := Merkle(leaves)
	return withSlot(Blake(ess[:], m[:]), t.CreationSlot)
}

// SignedTxID is the ID of the signed transaction.
func SignedTxID(s *SignedTx) ID36 {
	w := &W{}
	w.Tx(s.Tx)
	w.U16(uint16(len(s.Unlocks)))
	for i := range s.Unlocks {
		w.Unlock(&s.Unlocks[i])
	}
	return withSlot(Blake(w.B), s.Tx.CreationSlot)
}

// SigningMessage is what unlock signatures sign.
func SigningMessage(t *Tx) []byte {
	h := Blake(EncTx(t))
	return h[:]
}

func OutID(tx ID36, i uint16) OutputID {
	var o OutputID
	copy(o[:], tx[:])
	o[36], o[37] = byte(i), byte(i>>8)
	return o
}

// BlockID of a block under the parameters.
func (p *Params) BlockID(b *Block) ID36 {
	h, bd := Blake(EncHeader(b)), Blake(EncBody(b))
	sig := append(append([]byte{0}, b.Pub[:]...), b.Sig[:]...)
	return withSlot(Blake(h[:], bd[:], sig), p.SlotFromTime(b.IssuingTime))
}

func BlockSigningMessage(b *Block) []byte {
	h, bd := Blake(EncHeader(b)), Blake(EncBody(b))
	return append(append([]byte{}, h[:]...), bd[:]...)
}
