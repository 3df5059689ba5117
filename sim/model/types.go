// Package model is an independent, executable reference model of the protocol rules that iota.go implements.
// It shares no code with the repository under test: it has its own wire decoder and encoder, its own identifiers,
// its own syntactic and semantic transaction rules and its own fixed point arithmetic (on big integers).
package model

import (
	"bytes"
	"math/big"
)

type Hash = [32]byte
type ID36 = [36]byte
type OutputID = [38]byte

const (
	AddrEd25519    = 0
	AddrAccount    = 8
	AddrNFT        = 16
	AddrAnchor     = 24
	AddrImplicit   = 32
	AddrMulti      = 40
	AddrRestricted = 48

	OutBasic      = 0
	OutAccount    = 1
	OutAnchor     = 2
	OutFoundry    = 3
	OutNFT        = 4
	OutDelegation = 5

	UCAddress    = 0
	UCSDR        = 1
	UCTimelock   = 2
	UCExpiration = 3
	UCStateCtrl  = 4
	UCGovernor   = 5
	UCImmAccount = 6

	FSender        = 0
	FIssuer        = 1
	FMetadata      = 2
	FStateMetadata = 3
	FTag           = 4
	FNativeToken   = 5
	FBlockIssuer   = 6
	FStaking       = 7

	UnlSignature = 0
	UnlReference = 1
	UnlAccount   = 2
	UnlAnchor    = 3
	UnlNFT       = 4
	UnlMulti     = 5
	UnlEmpty     = 6

	CtxCommitment = 0
	CtxBIC        = 1
	CtxReward     = 2

	PayloadTagged    = 0
	PayloadTx        = 1
	PayloadCandidacy = 2

	BodyBasic      = 0
	BodyValidation = 1

	CapBurnNT      = 0
	CapBurnMana    = 1
	CapDestAccount = 2
	CapDestAnchor  = 3
	CapDestFoundry = 4
	CapDestNFT     = 5

	ACapNT         = 0
	ACapMana       = 1
	ACapTimelock   = 2
	ACapExpiration = 3
	ACapSDR        = 4
	ACapAccount    = 5
	ACapAnchor     = 6
	ACapNFT        = 7
	ACapDelegation = 8
)

// Member of a multi address.
type Member struct {
	Addr   *Addr
	Weight byte
}

// Addr is any address.
type Addr struct {
	Kind      byte
	ID        Hash     // ed25519, implicit, account, nft, anchor
	Members   []Member // multi
	Threshold uint16   // multi
	Inner     *Addr    // restricted
	Caps      []byte   // restricted
}

func (a *Addr) Key() string { return string(EncAddr(a)) }

func (a *Addr) Equal(b *Addr) bool { return a.Key() == b.Key() }

// Resolve returns the address a restricted address wraps, or the address itself.
func (a *Addr) Resolve() *Addr {
	if a.Kind == AddrRestricted {
		return a.Inner
	}
	return a
}

func (a *Addr) IsChain() bool {
	return a.Kind == AddrAccount || a.Kind == AddrNFT || a.Kind == AddrAnchor
}
func (a *Addr) IsDirect() bool { return a.Kind == AddrEd25519 || a.Kind == AddrImplicit }

func bit(mask []byte, n int) bool {
	return n/8 < len(mask) && mask[n/8]&(1<<(n%8)) != 0
}

// Cap tells whether the address can receive the thing with the given capability.
func (a *Addr) Cap(n int) bool {
	if a.Kind == AddrRestricted {
		return bit(a.Caps, n)
	}
	if a.Kind == AddrImplicit {
		// Implicit account creation addresses may only own basic outputs, with mana and native tokens.
		return n == ACapMana || n == ACapNT
	}
	return true
}

// SetBit returns a bitmask without trailing zeros that has exactly the given bits.
func SetBits(bits ...int) []byte {
	var m []byte
	for _, b := range bits {
		for len(m) <= b/8 {
			m = append(m, 0)
		}
		m[b/8] |= 1 << (b % 8)
	}
	return m
}

// UC is an unlock condition.
type UC struct {
	Type   byte
	Addr   *Addr
	Amount uint64
	Slot   uint32
}

type Entry struct {
	Key   string
	Value []byte
}

// Feat is a feature.
type Feat struct {
	Type      byte
	Addr      *Addr
	Entries   []Entry
	Tag       []byte
	NTID      OutputID // native token IDs are 38 bytes long as well
	NTAmount  *big.Int
	Expiry    uint32
	Keys      []Hash
	Staked    uint64
	FixedCost uint64
	Start     uint32
	End       uint32
}

// Output is any output.
type Output struct {
	Kind   byte
	Amount uint64
	Mana   uint64
	ID     Hash // account, anchor, NFT, delegation ID

	FoundryCounter uint32 // account
	StateIndex     uint32 // anchor
	Serial         uint32 // foundry
	Minted         *big.Int
	Melted         *big.Int
	MaxSupply      *big.Int

	Delegated uint64 // delegation
	Validator *Addr
	Start     uint32
	End       uint32

	UCs   []UC
	Feats []Feat
	Imm   []Feat
}

func (o *Output) UC(t byte) *UC {
	for i := range o.UCs {
		if o.UCs[i].Type == t {
			return &o.UCs[i]
		}
	}
	return nil
}

func findFeat(fs []Feat, t byte) *Feat {
	for i := range fs {
		if fs[i].Type == t {
			return &fs[i]
		}
	}
	return nil
}

func (o *Output) Feat(t byte) *Feat    { return findFeat(o.Feats, t) }
func (o *Output) ImmFeat(t byte) *Feat { return findFeat(o.Imm, t) }

func (o *Output) IsChain() bool { return o.Kind != OutBasic }

// IsImplicit tells whether this is an implicit account.
func (o *Output) IsImplicit() bool {
	if o.Kind != OutBasic {
		return false
	}
	a := o.UC(UCAddress)
	return a != nil && a.Addr.Kind == AddrImplicit
}

// HasID tells whether outputs of the kind carry a 32 byte chain ID derived from an output ID.
func HasID(kind byte) bool {
	return kind == OutAccount || kind == OutAnchor || kind == OutNFT || kind == OutDelegation
}

// FoundryID of a foundry output.
func (o *Output) FoundryID() OutputID {
	var id OutputID
	id[0] = AddrAccount
	a := o.UC(UCImmAccount).Addr
	copy(id[1:], a.ID[:])
	id[33] = byte(o.Serial)
	id[34] = byte(o.Serial >> 8)
	id[35] = byte(o.Serial >> 16)
	id[36] = byte(o.Serial >> 24)
	id[37] = 0
	return id
}

// ChainIDFor gives the ID chain output has given the output ID it has or will have.
func (o *Output) ChainIDFor(oid OutputID) string {
	switch {
	case o.Kind == OutFoundry:
		id := o.FoundryID()
		return "F" + string(id[:])
	case o.IsImplicit():
		h := Blake(oid[:])
		return "A" + string(h[:])
	case o.Kind == OutBasic:
		return ""
	}
	h := o.ID
	if h == (Hash{}) {
		h = Blake(oid[:])
	}
	return chainPrefix(o.Kind) + string(h[:])
}

func chainPrefix(kind byte) string {
	switch kind {
	case OutAccount:
		return "A"
	case OutAnchor:
		return "R"
	case OutNFT:
		return "N"
	case OutDelegation:
		return "D"
	}
	return "?"
}

// ChainAddr gives the chain address of an addressable chain output.
func (o *Output) ChainAddr(oid OutputID) *Addr {
	h := o.ID
	if h == (Hash{}) {
		h = Blake(oid[:])
	}
	switch o.Kind {
	case OutAccount:
		return &Addr{Kind: AddrAccount, ID: h}
	case OutAnchor:
		return &Addr{Kind: AddrAnchor, ID: h}
	case OutNFT:
		return &Addr{Kind: AddrNFT, ID: h}
	}
	return nil
}

// CtxInput is a context input.
type CtxInput struct {
	Type      byte
	Commit    ID36
	AccountID Hash
	Index     uint16
}

type Allotment struct {
	AccountID Hash
	Mana      uint64
}

type Tagged struct {
	Tag  []byte
	Data []byte
}

// Tx is a transaction.
type Tx struct {
	NetworkID    uint64
	CreationSlot uint32
	Ctx          []CtxInput
	Inputs       []OutputID // 36 byte transaction ID + index
	Allotments   []Allotment
	Caps         []byte
	Payload      *Tagged
	Outputs      []*Output
}

func (t *Tx) Cap(n int) bool { return bit(t.Caps, n) }

func (t *Tx) Commitment() *CtxInput {
	for i := range t.Ctx {
		if t.Ctx[i].Type == CtxCommitment {
			return &t.Ctx[i]
		}
	}
	return nil
}

type Unlock struct {
	Type byte
	Pub  [32]byte
	Sig  [64]byte
	Ref  uint16
	Subs []Unlock
}

// SignedTx is a signed transaction.
type SignedTx struct {
	Tx      *Tx
	Unlocks []Unlock
}

// Block is a block.
type Block struct {
	Version     byte
	NetworkID   uint64
	IssuingTime uint64 // ns
	Commitment  ID36
	Finalized   uint32
	Issuer      Hash

	BodyType byte
	Strong   []ID36
	Weak     []ID36
	Shallow  []ID36

	PayloadKind int // -1 none
	Tx          *SignedTx
	Tagged      *Tagged
	MaxBurned   uint64

	HighestVersion byte
	ParamsHash     Hash

	Pub [32]byte
	Sig [64]byte
}

// Commitment is a slot commitment.
type Commitment struct {
	Version byte
	Slot    uint32
	Prev    ID36
	Roots   Hash
	Weight  uint64
	RMC     uint64
}

// SlotOf gives the slot part of a 36 byte ID.
func SlotOf(id ID36) uint32 { return u32le(id[32:]) }

// SlotOfOutput gives the creation slot of an output ID.
func SlotOfOutput(id OutputID) uint32 { return u32le(id[32:36]) }

func u32le(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

// CloneOutput deep-copies by re-decoding the encoding where possible, else by hand.
func CloneOutput(o *Output) *Output {
	c := *o
	cp := func(x *big.Int) *big.Int {
		if x == nil {
			return nil
		}
		return new(big.Int).Set(x)
	}
	c.Minted, c.Melted, c.MaxSupply = cp(o.Minted), cp(o.Melted), cp(o.MaxSupply)
	c.UCs = append([]UC(nil), o.UCs...)
	cf := func(fs []Feat) []Feat {
		var r []Feat
		for _, f := range fs {
			g := f
			g.Entries = append([]Entry(nil), f.Entries...)
			g.Tag = bytes.Clone(f.Tag)
			g.NTAmount = cp(f.NTAmount)
			g.Keys = append([]Hash(nil), f.Keys...)
			r = append(r, g)
		}
		return r
	}
	c.Feats, c.Imm = cf(o.Feats), cf(o.Imm)
	return &c
}

func CloneTx(t *Tx) *Tx {
	c := *t
	c.Ctx = append([]CtxInput(nil), t.Ctx...)
	c.Inputs = append([]OutputID(nil), t.Inputs...)
	c.Allotments = append([]Allotment(nil), t.Allotments...)
	c.Caps = bytes.Clone(t.Caps)
	if t.Payload != nil {
		c.Payload = &Tagged{bytes.Clone(t.Payload.Tag), bytes.Clone(t.Payload.Data)}
	}
	c.Outputs = nil
	for _, o := range t.Outputs {
		c.Outputs = append(c.Outputs, CloneOutput(o))
	}
	return &c
}

func CloneUnlocks(us []Unlock) []Unlock {
	r := append([]Unlock(nil), us...)
	for i := range r {
		if r[i].Subs != nil {
			r[i].Subs = CloneUnlocks(r[i].Subs)
		}
	}
	return r
}

func CloneSigned(s *SignedTx) *SignedTx {
	return &SignedTx{Tx: CloneTx(s.Tx), Unlocks: CloneUnlocks(s.Unlocks)}
}
