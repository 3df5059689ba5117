package model

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
)

// R is a strict reader with a sticky error.
type R struct {
	B   []byte
	Off int
	Err error
}

func (r *R) fail(format string, a ...any) {
	if r.Err == nil {
		r.Err = fmt.Errorf(format, a...)
	}
}

func (r *R) Raw(n int) []byte {
	if r.Err != nil || n < 0 || len(r.B)-r.Off < n {
		r.fail("short data at %d (need %d)", r.Off, n)
		return make([]byte, max(n, 0)&0xfff)
	}
	b := r.B[r.Off : r.Off+n]
	r.Off += n
	return b
}
func (r *R) U8() byte {
	b := r.Raw(1)
	return b[0]
}
func (r *R) U16() uint16 { return binary.LittleEndian.Uint16(r.Raw(2)) }
func (r *R) U32() uint32 { return binary.LittleEndian.Uint32(r.Raw(4)) }
func (r *R) U64() uint64 { return binary.LittleEndian.Uint64(r.Raw(8)) }
func (r *R) U256() *big.Int {
	b := bytes.Clone(r.Raw(32))
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return new(big.Int).SetBytes(b)
}
func (r *R) Hash() (h Hash) { copy(h[:], r.Raw(32)); return }
func (r *R) ID36() (h ID36) { copy(h[:], r.Raw(36)); return }

// Addr decodes an address of any kind.
func (r *R) Addr() *Addr {
	a := &Addr{Kind: r.U8()}
	if r.Err != nil {
		return a
	}
	switch a.Kind {
	case AddrEd25519, AddrAccount, AddrNFT, AddrAnchor, AddrImplicit:
		a.ID = r.Hash()
	case AddrMulti:
		n := int(r.U8())
		if r.Err == nil && (n < 2 || n > 10) {
			r.fail("multi address with %d members", n)
		}
		sum := 0
		for i := 0; i < n && r.Err == nil; i++ {
			m := Member{Addr: r.Addr()}
			m.Weight = r.U8()
			if r.Err != nil {
				break
			}
			switch m.Addr.Kind {
			case AddrEd25519, AddrAccount, AddrNFT, AddrAnchor:
			default:
				r.fail("multi address member of kind %d", m.Addr.Kind)
			}
			if m.Weight == 0 {
				r.fail("zero weight")
			}
			sum += int(m.Weight)
			if i > 0 && bytes.Compare(EncAddr(a.Members[i-1].Addr), EncAddr(m.Addr)) >= 0 {
				r.fail("multi address members not ordered or not unique")
			}
			a.Members = append(a.Members, m)
		}
		a.Threshold = r.U16()
		if r.Err == nil && (a.Threshold == 0 || int(a.Threshold) > sum) {
			r.fail("multi address threshold")
		}
	case AddrRestricted:
		a.Inner = r.Addr()
		if r.Err == nil {
			switch a.Inner.Kind {
			case AddrEd25519, AddrAccount, AddrNFT, AddrAnchor, AddrMulti:
			default:
				r.fail("restricted address around kind %d", a.Inner.Kind)
			}
		}
		n := int(r.U8())
		if r.Err == nil && n > 2 {
			r.fail("restricted caps length")
			return a
		}
		a.Caps = bytes.Clone(r.Raw(n))
		if n > 0 && r.Err == nil && a.Caps[n-1] == 0 {
			r.fail("restricted caps trailing zero")
		}
	default:
		r.fail("address kind %d", a.Kind)
	}
	return a
}

func (r *R) ucs(kind byte) []UC {
	n := int(r.U8())
	if r.Err != nil {
		return nil
	}
	minN, maxN := 1, 1
	var allowed, must []byte
	switch kind {
	case OutBasic, OutNFT:
		maxN, allowed, must = 4, []byte{UCAddress, UCSDR, UCTimelock, UCExpiration}, []byte{UCAddress}
	case OutAccount, OutDelegation:
		allowed, must = []byte{UCAddress}, []byte{UCAddress}
	case OutAnchor:
		minN, maxN = 2, 2
		allowed, must = []byte{UCStateCtrl, UCGovernor}, []byte{UCStateCtrl, UCGovernor}
	case OutFoundry:
		allowed, must = []byte{UCImmAccount}, []byte{UCImmAccount}
	}
	if n < minN || n > maxN {
		r.fail("%d unlock conditions", n)
		return nil
	}
	var us []UC
	for i := 0; i < n && r.Err == nil; i++ {
		u := UC{Type: r.U8()}
		if r.Err == nil && bytes.IndexByte(allowed, u.Type) < 0 {
			r.fail("unlock condition type %d on output kind %d", u.Type, kind)
			break
		}
		switch u.Type {
		case UCAddress:
			u.Addr = r.Addr()
		case UCStateCtrl, UCGovernor:
			u.Addr = r.Addr()
			r.notImplicit(u.Addr)
		case UCSDR:
			u.Addr = r.Addr()
			r.notImplicit(u.Addr)
			u.Amount = r.U64()
		case UCTimelock:
			u.Slot = r.U32()
		case UCExpiration:
			u.Addr = r.Addr()
			r.notImplicit(u.Addr)
			u.Slot = r.U32()
		case UCImmAccount:
			if r.U8() != AddrAccount {
				r.fail("immutable account unlock condition without account address")
			}
			u.Addr = &Addr{Kind: AddrAccount, ID: r.Hash()}
		}
		us = append(us, u)
	}
	for _, m := range must {
		has := false
		for _, u := range us {
			has = has || u.Type == m
		}
		if !has {
			r.fail("unlock condition %d missing", m)
		}
	}
	return us
}

func (r *R) notImplicit(a *Addr) {
	if r.Err == nil && a.Kind == AddrImplicit {
		r.fail("implicit account creation address not allowed here")
	}
}

func (r *R) feats(kind byte, imm bool) []Feat {
	n := int(r.U8())
	if r.Err != nil {
		return nil
	}
	var allowed []byte
	maxN := 0
	switch {
	case imm && kind == OutFoundry:
		allowed, maxN = []byte{FMetadata}, 1
	case imm:
		allowed, maxN = []byte{FIssuer, FMetadata}, 2
	case kind == OutBasic:
		allowed, maxN = []byte{FSender, FMetadata, FTag, FNativeToken}, 4
	case kind == OutAccount:
		allowed, maxN = []byte{FSender, FMetadata, FBlockIssuer, FStaking}, 4
	case kind == OutAnchor:
		allowed, maxN = []byte{FMetadata, FStateMetadata}, 2
	case kind == OutFoundry:
		allowed, maxN = []byte{FMetadata, FNativeToken}, 2
	case kind == OutNFT:
		allowed, maxN = []byte{FSender, FMetadata, FTag}, 3
	}
	if n > maxN {
		r.fail("%d features", n)
		return nil
	}
	var fs []Feat
	for i := 0; i < n && r.Err == nil; i++ {
		f := Feat{Type: r.U8()}
		if r.Err == nil && bytes.IndexByte(allowed, f.Type) < 0 {
			r.fail("feature type %d on output kind %d", f.Type, kind)
			break
		}
		switch f.Type {
		case FSender, FIssuer:
			f.Addr = r.Addr()
		case FMetadata, FStateMetadata:
			c := int(r.U8())
			if r.Err == nil && c == 0 {
				r.fail("metadata without entries")
			}
			for j := 0; j < c && r.Err == nil; j++ {
				var e Entry
				e.Key = string(r.Raw(int(r.U8())))
				e.Value = bytes.Clone(r.Raw(int(r.U16())))
				if r.Err != nil {
					break
				}
				if len(e.Key) == 0 {
					// an empty key consists of no printable characters only
				}
				for _, ch := range []byte(e.Key) {
					if ch < 33 || ch > 126 {
						r.fail("metadata key not printable")
					}
				}
				if j > 0 && !entryLess(f.Entries[j-1], e) {
					r.fail("metadata entries not ordered or not unique")
				}
				f.Entries = append(f.Entries, e)
			}
		case FTag:
			c := int(r.U8())
			if r.Err == nil && (c < 1 || c > 64) {
				r.fail("tag length %d", c)
				break
			}
			f.Tag = bytes.Clone(r.Raw(c))
		case FNativeToken:
			copy(f.NTID[:], r.Raw(38))
			f.NTAmount = r.U256()
		case FBlockIssuer:
			f.Expiry = r.U32()
			c := int(r.U8())
			if r.Err == nil && (c < 1 || c > 128) {
				r.fail("%d block issuer keys", c)
			}
			for j := 0; j < c && r.Err == nil; j++ {
				if r.U8() != 0 && r.Err == nil {
					r.fail("block issuer key type")
				}
				k := r.Hash()
				if j > 0 && bytes.Compare(f.Keys[j-1][:], k[:]) >= 0 {
					r.fail("block issuer keys not ordered or not unique")
				}
				f.Keys = append(f.Keys, k)
			}
		case FStaking:
			f.Staked = r.U64()
			f.FixedCost = r.U64()
			f.Start = r.U32()
			f.End = r.U32()
		}
		fs = append(fs, f)
	}
	return fs
}

// entryLess orders metadata entries the way the wire demands: by their serialized key and value bytes.
func entryLess(a, b Entry) bool {
	ka, kb := append([]byte{byte(len(a.Key))}, a.Key...), append([]byte{byte(len(b.Key))}, b.Key...)
	if c := bytes.Compare(ka, kb); c != 0 {
		return c < 0
	}
	return false
}

func DecOutput(b []byte) (*Output, error) {
	r := &R{B: b}
	o := r.Output()
	if r.Err == nil && r.Off != len(b) {
		return nil, errors.New("trailing bytes")
	}
	return o, r.Err
}

func (r *R) Output() *Output {
	o := &Output{Kind: r.U8()}
	if r.Err == nil && o.Kind > OutDelegation {
		r.fail("output kind %d", o.Kind)
	}
	if r.Err != nil {
		return o
	}
	o.Amount = r.U64()
	switch o.Kind {
	case OutBasic:
		o.Mana = r.U64()
	case OutAccount:
		o.Mana, o.ID, o.FoundryCounter = r.U64(), r.Hash(), r.U32()
	case OutAnchor:
		o.Mana, o.ID, o.StateIndex = r.U64(), r.Hash(), r.U32()
	case OutFoundry:
		o.Serial = r.U32()
		if r.U8() != 0 {
			r.fail("token scheme type")
		}
		o.Minted, o.Melted, o.MaxSupply = r.U256(), r.U256(), r.U256()
	case OutNFT:
		o.Mana, o.ID = r.U64(), r.Hash()
	case OutDelegation:
		o.Delegated, o.ID = r.U64(), r.Hash()
		if r.U8() != AddrAccount {
			r.fail("validator address kind")
		}
		o.Validator = &Addr{Kind: AddrAccount, ID: r.Hash()}
		o.Start, o.End = r.U32(), r.U32()
	}
	o.UCs = r.ucs(o.Kind)
	if o.Kind != OutDelegation {
		o.Feats = r.feats(o.Kind, false)
	}
	if o.Kind == OutAccount || o.Kind == OutAnchor || o.Kind == OutFoundry || o.Kind == OutNFT {
		o.Imm = r.feats(o.Kind, true)
	}
	return o
}

func (r *R) tagged() *Tagged {
	t := &Tagged{}
	n := int(r.U8())
	if r.Err == nil && n > 64 {
		r.fail("tagged data tag length")
	}
	t.Tag = bytes.Clone(r.Raw(n))
	m := r.U32()
	if r.Err == nil && m > 8192 {
		r.fail("tagged data length")
		return t
	}
	t.Data = bytes.Clone(r.Raw(int(m)))
	return t
}

func (r *R) count16(lo, hi int, what string) int {
	n := int(r.U16())
	if r.Err == nil && (n < lo || n > hi) {
		r.fail("%s count %d", what, n)
	}
	if r.Err != nil {
		return 0
	}
	return n
}

// Tx decodes a transaction.
func (r *R) Tx() *Tx {
	t := &Tx{NetworkID: r.U64(), CreationSlot: r.U32()}
	n := r.count16(0, 128, "context input")
	for i := 0; i < n && r.Err == nil; i++ {
		c := CtxInput{Type: r.U8()}
		switch c.Type {
		case CtxCommitment:
			c.Commit = r.ID36()
		case CtxBIC:
			c.AccountID = r.Hash()
		case CtxReward:
			c.Index = r.U16()
		default:
			r.fail("context input type %d", c.Type)
		}
		t.Ctx = append(t.Ctx, c)
	}
	n = r.count16(1, 128, "input")
	for i := 0; i < n && r.Err == nil; i++ {
		if r.U8() != 0 {
			r.fail("input type")
		}
		var in OutputID
		copy(in[:], r.Raw(38))
		t.Inputs = append(t.Inputs, in)
	}
	n = r.count16(0, 128, "allotment")
	for i := 0; i < n && r.Err == nil; i++ {
		t.Allotments = append(t.Allotments, Allotment{r.Hash(), r.U64()})
	}
	c := int(r.U8())
	if r.Err == nil && c > 1 {
		r.fail("capabilities length")
	}
	t.Caps = bytes.Clone(r.Raw(c))
	pl := int(r.U32())
	if r.Err == nil && pl > 0 {
		start := r.Off
		if r.U8() != PayloadTagged {
			r.fail("essence payload type")
		}
		if r.Err == nil {
			t.Payload = r.tagged()
		}
		if r.Err == nil && r.Off-start != pl {
			r.fail("payload length mismatch")
		}
	}
	n = r.count16(1, 128, "output")
	for i := 0; i < n && r.Err == nil; i++ {
		t.Outputs = append(t.Outputs, r.Output())
	}
	return t
}

func (r *R) unlock() Unlock {
	u := Unlock{Type: r.U8()}
	if r.Err != nil {
		return u
	}
	switch u.Type {
	case UnlSignature:
		r.sig(&u.Pub, &u.Sig)
	case UnlReference, UnlAccount, UnlAnchor, UnlNFT:
		u.Ref = r.U16()
	case UnlMulti:
		n := int(r.U8())
		if r.Err == nil && (n < 2 || n > 10) {
			r.fail("multi unlock with %d unlocks", n)
		}
		for i := 0; i < n && r.Err == nil; i++ {
			u.Subs = append(u.Subs, r.unlock())
		}
	case UnlEmpty:
	default:
		r.fail("unlock type %d", u.Type)
	}
	return u
}

func (r *R) sig(pub *[32]byte, sig *[64]byte) {
	if r.U8() != 0 {
		r.fail("signature type")
	}
	copy(pub[:], r.Raw(32))
	copy(sig[:], r.Raw(64))
}

// Signed decodes a signed transaction after its payload type byte.
func (r *R) Signed() *SignedTx {
	s := &SignedTx{Tx: r.Tx()}
	n := r.count16(1, 128, "unlock")
	for i := 0; i < n && r.Err == nil; i++ {
		s.Unlocks = append(s.Unlocks, r.unlock())
	}
	return s
}

// DecSigned decodes a signed transaction with its payload type byte.
func DecSigned(b []byte) (*SignedTx, int, error) {
	r := &R{B: b}
	if r.U8() != PayloadTx {
		r.fail("payload type")
	}
	if r.Err != nil {
		return nil, 0, r.Err
	}
	s := r.Signed()
	return s, r.Off, r.Err
}

// Block decodes a block: only the layout, see CheckBlock and CheckTx for the rules.
func (r *R) Block() *Block {
	b := &Block{PayloadKind: -1}
	b.Version, b.NetworkID, b.IssuingTime = r.U8(), r.U64(), r.U64()
	b.Commitment, b.Finalized, b.Issuer = r.ID36(), r.U32(), r.Hash()
	b.BodyType = r.U8()
	if r.Err == nil && b.BodyType > BodyValidation {
		r.fail("block body type")
	}
	maxP := 8
	if b.BodyType == BodyValidation {
		maxP = 50
	}
	for i, l := range []*[]ID36{&b.Strong, &b.Weak, &b.Shallow} {
		n := int(r.U8())
		if r.Err == nil && (n > maxP || (i == 0 && n < 1)) {
			r.fail("%d parents", n)
		}
		for j := 0; j < n && r.Err == nil; j++ {
			p := r.ID36()
			if j > 0 && bytes.Compare((*l)[j-1][:], p[:]) >= 0 {
				r.fail("parents not ordered or not unique")
			}
			*l = append(*l, p)
		}
	}
	if r.Err != nil {
		return b
	}
	if b.BodyType == BodyValidation {
		b.HighestVersion, b.ParamsHash = r.U8(), r.Hash()
	} else {
		pl := int(r.U32())
		if r.Err == nil && pl > 0 {
			start := r.Off
			b.PayloadKind = int(r.U8())
			if r.Err == nil {
				switch b.PayloadKind {
				case PayloadTx:
					b.Tx = r.Signed()
				case PayloadTagged:
					b.Tagged = r.tagged()
				case PayloadCandidacy:
				default:
					r.fail("payload type")
				}
			}
			if r.Err == nil && r.Off-start != pl {
				r.fail("payload length mismatch")
			}
		}
		b.MaxBurned = r.U64()
	}
	r.sig(&b.Pub, &b.Sig)
	return b
}

// DecBlock decodes a block, giving the number of bytes it took.
func DecBlock(data []byte) (*Block, int, error) {
	r := &R{B: data}
	b := r.Block()
	return b, r.Off, r.Err
}
