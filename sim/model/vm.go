package model

import (
	"crypto/ed25519"
	"math/big"
	"sort"
)

func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func u(x uint64) *big.Int        { return new(big.Int).SetUint64(x) }

// Resolved is everything a node resolves for a transaction before it executes it.
type Resolved struct {
	Outputs    []*Output         // one per input
	CommitSlot *uint32           // slot of the commitment input, if there is one
	BIC        map[Hash]int64    // account ID to block issuance credit
	Rewards    map[string]uint64 // chain ID to claimed reward
}

type unlocked struct {
	at   int
	refs map[int]bool
}

type vmState struct {
	p        *Params
	t        *Tx
	s        *SignedTx
	r        *Resolved
	v        *Viols
	byKey    map[string]*unlocked
	sigAt    map[int]*unlocked
	sigPub   map[int][32]byte
	msg      []byte
	outChain map[string]*Output
	inChain  map[string]int // chain ID to input index
	chainIDs []string       // per input
	past     uint32
	future   uint32
	manaIn   *big.Int
	manaOut  *big.Int
	ntIn     map[OutputID]*big.Int
	ntOut    map[OutputID]*big.Int
}

// Execute evaluates unlocks and all semantic rules for a transaction that passed CheckSyntax.
func (p *Params) Execute(s *SignedTx, r *Resolved) (v Viols) {
	m := &vmState{p: p, t: s.Tx, s: s, r: r, v: &v,
		byKey: map[string]*unlocked{}, sigAt: map[int]*unlocked{}, sigPub: map[int][32]byte{},
		outChain: map[string]*Output{}, inChain: map[string]int{}}
	m.msg = SigningMessage(s.Tx)
	if r.CommitSlot != nil {
		m.past, m.future = *r.CommitSlot+p.MaxCA, *r.CommitSlot+p.MinCA
	}
	txid := TxID(s.Tx)
	for i, o := range m.t.Outputs {
		if o.IsChain() {
			m.outChain[o.ChainIDFor(OutID(txid, uint16(i)))] = o
		}
	}
	for i, o := range r.Outputs {
		id := o.ChainIDFor(m.t.Inputs[i])
		m.chainIDs = append(m.chainIDs, id)
		if id != "" {
			m.inChain[id] = i
		}
	}
	for i := range r.Outputs {
		m.unlock(i)
	}
	m.mana()
	m.timelocks()
	m.senders()
	m.base()
	m.nativeTokens()
	m.chains()
	m.balanceMana()
	n := 0
	for _, o := range r.Outputs {
		if o.IsImplicit() {
			n++
		}
	}
	if n > 1 {
		v.add("two-implicit-accounts", "L11", "L07")
	}
	return v
}

// owner gives the address that must be unlocked for an input.
func (m *vmState) owner(i int) *Addr {
	o := m.r.Outputs[i]
	var a *Addr
	switch o.Kind {
	case OutAnchor:
		a = o.UC(UCGovernor).Addr
		if n := m.outChain[m.chainIDs[i]]; n != nil && n.StateIndex == o.StateIndex+1 {
			a = o.UC(UCStateCtrl).Addr
		}
	case OutFoundry:
		a = o.UC(UCImmAccount).Addr
	default:
		a = o.UC(UCAddress).Addr
	}
	if e := o.UC(UCExpiration); e != nil {
		switch {
		case m.r.CommitSlot == nil:
			m.v.add("expiration-without-commitment", "L05")
			return nil
		case m.future >= e.Slot:
			a = e.Addr
		case m.past < e.Slot:
		default:
			m.v.add("expiration-deadzone", "L05")
			return nil
		}
	}
	return a.Resolve()
}

// whose names the properties violated if the wrong party spends.
func (m *vmState) bad(i int, rule string) {
	props := []string{"L04"}
	o := m.r.Outputs[i]
	if o.UC(UCExpiration) != nil {
		props = append(props, "L05")
	}
	if o.Kind == OutAnchor {
		props = append(props, "L06")
	}
	m.v.add("unlock-"+rule, props...)
}

func (m *vmState) unlock(i int) {
	a := m.owner(i)
	if a != nil {
		m.unlockAddr(a, &m.s.Unlocks[i], i, false)
	}
	// the address of the chain itself is unlocked now
	o := m.r.Outputs[i]
	ca := o.ChainAddr(m.t.Inputs[i])
	if ca == nil {
		return
	}
	if o.Kind == OutAnchor {
		n := m.outChain[m.chainIDs[i]]
		if n == nil || n.StateIndex != o.StateIndex+1 {
			return
		}
	}
	m.byKey[ca.Key()] = &unlocked{at: i, refs: map[int]bool{}}
}

func (m *vmState) unlockAddr(a *Addr, un *Unlock, i int, only bool) bool {
	switch {
	case a.IsChain():
		want := map[byte]byte{AddrAccount: UnlAccount, AddrAnchor: UnlAnchor, AddrNFT: UnlNFT}[a.Kind]
		if un.Type != want {
			m.bad(i, "chain-type")
			return false
		}
		return m.refNonDirect(a, i, int(un.Ref), only)
	case a.IsDirect():
		switch un.Type {
		case UnlReference:
			r := int(un.Ref)
			s := m.sigAt[r]
			if s == nil {
				m.bad(i, "reference-without-signature")
				return false
			}
			pub := m.sigPub[r]
			if Blake(pub[:]) != a.ID {
				m.bad(i, "reference-other-owner")
				return false
			}
			if only {
				return true
			}
			s.refs[i] = true
			if m.byKey[a.Key()] == nil {
				m.byKey[a.Key()] = &unlocked{at: i, refs: map[int]bool{}}
			}
			return true
		case UnlSignature:
			if m.byKey[a.Key()] != nil {
				m.bad(i, "signature-again")
				return false
			}
			if Blake(un.Pub[:]) != a.ID || !ed25519.Verify(un.Pub[:], m.msg, un.Sig[:]) {
				m.bad(i, "signature")
				return false
			}
			if only {
				return true
			}
			x := &unlocked{at: i, refs: map[int]bool{}}
			m.sigAt[i], m.sigPub[i], m.byKey[a.Key()] = x, un.Pub, x
			return true
		}
		m.bad(i, "direct-type")
		return false
	}
	// multi address
	switch un.Type {
	case UnlReference:
		return m.refNonDirect(a, i, int(un.Ref), only)
	case UnlMulti:
		if m.byKey[a.Key()] != nil {
			m.bad(i, "multi-again")
			return false
		}
		if len(a.Members) != len(un.Subs) {
			m.bad(i, "multi-length")
			return false
		}
		sum := 0
		for j := range un.Subs {
			if un.Subs[j].Type == UnlEmpty {
				continue
			}
			if un.Subs[j].Type == UnlMulti {
				m.bad(i, "multi-nested")
				return false
			}
			if !m.unlockAddr(a.Members[j].Addr, &un.Subs[j], i, true) {
				return false
			}
			sum += int(a.Members[j].Weight)
		}
		if sum < int(a.Threshold) {
			m.bad(i, "multi-threshold")
			return false
		}
		m.byKey[a.Key()] = &unlocked{at: i, refs: map[int]bool{}}
		return true
	}
	m.bad(i, "multi-type")
	return false
}

func (m *vmState) refNonDirect(a *Addr, i, ref int, only bool) bool {
	x := m.byKey[a.Key()]
	if x == nil || x.at != ref {
		m.bad(i, "reference-not-unlocked")
		return false
	}
	if !only {
		x.refs[i] = true
	}
	return true
}

func (m *vmState) mana() {
	in, out := new(big.Int), new(big.Int)
	for i, o := range m.r.Outputs {
		from := SlotOfOutput(m.t.Inputs[i])
		st, ok := m.p.DecayBySlots(o.Mana, from, m.t.CreationSlot)
		po, ok2 := m.p.Potential(o, from, m.t.CreationSlot)
		if from > m.t.CreationSlot {
			m.v.add("input-from-the-future", "L02")
			continue
		}
		if !ok || !ok2 {
			m.v.add("mana-arithmetic", "L02")
			continue
		}
		in = add(in, add(st, po))
	}
	for _, r := range m.r.Rewards {
		in = add(in, u(r))
	}
	for _, o := range m.t.Outputs {
		out = add(out, u(o.Mana))
	}
	for _, a := range m.t.Allotments {
		out = add(out, u(a.Mana))
	}
	if in.BitLen() > 64 || out.BitLen() > 64 {
		m.v.add("mana-overflow", "L02")
	}
	m.manaIn, m.manaOut = in, out
}

func (m *vmState) balanceMana() {
	switch m.manaIn.Cmp(m.manaOut) {
	case -1:
		m.v.add("mana-created", "L02")
	case 1:
		if !m.t.Cap(CapBurnMana) {
			m.v.add("mana-burned", "L12", "L02")
		}
	}
}

func (m *vmState) timelocks() {
	for _, o := range m.r.Outputs {
		if l := o.UC(UCTimelock); l != nil {
			if m.r.CommitSlot == nil {
				m.v.add("timelock-without-commitment", "L05")
			} else if m.future < l.Slot {
				m.v.add("timelocked", "L05")
			}
		}
	}
}

func (m *vmState) isUnlocked(a *Addr) bool { return m.byKey[a.Resolve().Key()] != nil }

func (m *vmState) senders() {
	for _, o := range m.t.Outputs {
		if f := o.Feat(FSender); f != nil && !m.isUnlocked(f.Addr) {
			m.v.add("sender", "L10")
		}
	}
}

func (m *vmState) issuer(o *Output) {
	if f := o.ImmFeat(FIssuer); f != nil && !m.isUnlocked(f.Addr) {
		m.v.add("issuer", "L10")
	}
}

func (m *vmState) base() {
	in, out := new(big.Int), new(big.Int)
	due, paid := map[string]*big.Int{}, map[string]*big.Int{}
	for i, o := range m.r.Outputs {
		in = add(in, u(o.Amount))
		if r := o.UC(UCSDR); r != nil {
			k := r.Addr.Key()
			if x := m.byKey[k]; x != nil && (x.at == i || x.refs[i]) {
				continue
			}
			if due[k] == nil {
				due[k] = new(big.Int)
			}
			due[k] = add(due[k], u(r.Amount))
		}
	}
	for _, o := range m.t.Outputs {
		out = add(out, u(o.Amount))
		if o.Kind == OutBasic && len(o.Feats) == 0 && len(o.UCs) == 1 {
			k := o.UCs[0].Addr.Key()
			if paid[k] == nil {
				paid[k] = new(big.Int)
			}
			paid[k] = add(paid[k], u(o.Amount))
		}
	}
	if in.Cmp(out) != 0 {
		m.v.add("base-tokens-unbalanced", "L01")
	}
	for k, d := range due {
		if paid[k] == nil || paid[k].Cmp(d) < 0 {
			m.v.add("deposit-not-returned", "L01")
		}
	}
}

func ntSum(os []*Output) map[OutputID]*big.Int {
	r := map[OutputID]*big.Int{}
	for _, o := range os {
		if f := o.Feat(FNativeToken); f != nil {
			if r[f.NTID] == nil {
				r[f.NTID] = new(big.Int)
			}
			r[f.NTID] = add(r[f.NTID], f.NTAmount)
		}
	}
	return r
}

func val(m map[OutputID]*big.Int, k OutputID) *big.Int {
	if x := m[k]; x != nil {
		return x
	}
	return new(big.Int)
}

func (m *vmState) nativeTokens() {
	m.ntIn, m.ntOut = ntSum(m.r.Outputs), ntSum(m.t.Outputs)
	ids := map[OutputID]bool{}
	for _, s := range []map[OutputID]*big.Int{m.ntIn, m.ntOut} {
		for k, x := range s {
			ids[k] = true
			if x.BitLen() > 256 {
				m.v.add("native-token-overflow", "L03")
			}
		}
	}
	var all []OutputID
	for k := range ids {
		all = append(all, k)
	}
	sort.Slice(all, func(i, j int) bool { return string(all[i][:]) < string(all[j][:]) })
	for _, k := range all {
		if m.outChain["F"+string(k[:])] != nil {
			continue
		}
		switch val(m.ntIn, k).Cmp(val(m.ntOut, k)) {
		case -1:
			m.v.add("native-token-created", "L03")
		case 1:
			if !m.t.Cap(CapBurnNT) {
				m.v.add("native-token-burned", "L12", "L03")
			}
		}
	}
}

func featBytes(f *Feat) string {
	if f == nil {
		return ""
	}
	w := &W{}
	w.Feat(f)
	return string(w.B)
}

func sameImm(a, b *Output) bool {
	w, x := &W{}, &W{}
	w.Feats(a.Imm)
	x.Feats(b.Imm)
	return string(w.B) == string(x.B)
}

func (m *vmState) chains() {
	var ids []string
	for id := range m.inChain {
		ids = append(ids, id)
	}
	for id := range m.outChain {
		if _, ok := m.inChain[id]; !ok {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		i, hasIn := m.inChain[id]
		next := m.outChain[id]
		if !hasIn {
			m.genesis(next)
			continue
		}
		cur := m.r.Outputs[i]
		if next != nil && cur.Kind != next.Kind && !cur.IsImplicit() {
			m.v.add("chain-kind", "L06")
			continue
		}
		switch {
		case cur.IsImplicit():
			m.implicit(i, cur, next, id)
		case cur.Kind == OutAccount:
			m.account(i, cur, next, id)
		case cur.Kind == OutAnchor:
			m.anchor(cur, next)
		case cur.Kind == OutFoundry:
			m.foundry(cur, next)
		case cur.Kind == OutNFT:
			if next == nil {
				if !m.t.Cap(CapDestNFT) {
					m.v.add("destroy-nft", "L12", "L06")
				}
			} else if !sameImm(cur, next) {
				m.v.add("immutable-changed", "L06", "L10")
			}
		case cur.Kind == OutDelegation:
			m.delegation(cur, next, id)
		}
	}
}

func (m *vmState) genesis(o *Output) {
	if HasID(o.Kind) && o.ID != (Hash{}) {
		m.v.add("new-chain-with-id", "L06")
	}
	switch o.Kind {
	case OutAccount:
		m.accountGenesis(o)
	case OutAnchor, OutNFT:
		m.issuer(o)
	case OutFoundry:
		id := o.FoundryID()
		if o.Melted.Sign() != 0 || o.Minted.Cmp(val(m.ntOut, id)) != 0 {
			m.v.add("foundry-genesis-supply", "L03")
		}
		acc := o.UC(UCImmAccount).Addr.ID
		k := "A" + string(acc[:])
		i, ok := m.inChain[k]
		next := m.outChain[k]
		if !ok || next == nil || m.r.Outputs[i].IsImplicit() {
			m.v.add("foundry-without-account", "L03", "L06")
			return
		}
		cur := m.r.Outputs[i]
		if o.Serial <= cur.FoundryCounter || o.Serial > next.FoundryCounter {
			m.v.add("foundry-serial", "L03", "L06")
		}
		for _, x := range m.t.Outputs {
			if x == o {
				break
			}
			if x.Kind != OutFoundry || x.UC(UCImmAccount).Addr.ID != acc {
				continue
			}
			xid := x.FoundryID()
			if _, old := m.inChain["F"+string(xid[:])]; old {
				continue
			}
			if x.Serial >= o.Serial {
				m.v.add("foundry-serial-order", "L03", "L06")
			}
		}
	case OutDelegation:
		if m.r.CommitSlot == nil {
			m.v.add("delegation-without-commitment", "L09")
			return
		}
		e := m.p.Epoch(m.past)
		want := e + 1
		if m.past > m.p.Registration(e) {
			want = e + 2
		}
		if o.Start != want {
			m.v.add("delegation-start", "L09")
		}
		if o.Delegated != o.Amount {
			m.v.add("delegation-amount", "L09")
		}
		if o.End != 0 {
			m.v.add("delegation-end-not-zero", "L09")
		}
	}
}

func (m *vmState) stakingGenesis(f *Feat) {
	if m.r.CommitSlot == nil {
		m.v.add("staking-without-commitment", "L08")
		return
	}
	e := m.p.Epoch(m.past)
	if f.Start != e {
		m.v.add("staking-start", "L08")
	}
	if f.End < e+m.p.Unbonding {
		m.v.add("staking-end", "L08")
	}
}

func (m *vmState) accountGenesis(o *Output) {
	if f := o.Feat(FBlockIssuer); f != nil {
		if m.r.CommitSlot == nil {
			m.v.add("issuer-without-commitment", "L07")
		} else if f.Expiry < m.past {
			m.v.add("issuer-expiry", "L07")
		}
	}
	if f := o.Feat(FStaking); f != nil {
		m.stakingGenesis(f)
	}
	m.issuer(o)
}

func (m *vmState) bic(id string) {
	var h Hash
	copy(h[:], id[1:])
	if c, ok := m.r.BIC[h]; !ok {
		m.v.add("bic-missing", "L07")
	} else if c < 0 {
		m.v.add("account-locked", "L07")
	}
}

func (m *vmState) implicit(i int, cur, next *Output, id string) {
	if next == nil {
		m.v.add("implicit-account-destroyed", "L07", "L12")
		return
	}
	m.bic(id)
	exp := &Feat{Type: FBlockIssuer, Expiry: ^uint32(0)}
	m.issuerSTVF(i, cur, exp, next, id)
	m.accountGenesis(next)
}

func (m *vmState) issuerSTVF(i int, cur *Output, curF *Feat, next *Output, id string) {
	nextF := next.Feat(FBlockIssuer)
	if curF == nil && nextF == nil {
		return
	}
	if m.r.CommitSlot == nil {
		m.v.add("issuer-without-commitment", "L07")
		return
	}
	if curF != nil && curF.Expiry >= *m.r.CommitSlot {
		if nextF == nil {
			m.v.add("issuer-removed-early", "L07")
		} else if nextF.Expiry != curF.Expiry && nextF.Expiry < m.past {
			m.v.add("issuer-expiry", "L07")
		}
	} else if nextF != nil && nextF.Expiry < m.past {
		m.v.add("issuer-expiry", "L07")
	}

	from := SlotOfOutput(m.t.Inputs[i])
	st, ok := m.p.DecayBySlots(cur.Mana, from, m.t.CreationSlot)
	po, ok2 := m.p.Potential(cur, from, m.t.CreationSlot)
	if !ok || !ok2 {
		m.v.add("mana-arithmetic", "L02")
		return
	}
	in := sub(sub(m.manaIn, st), po)
	out := sub(m.manaOut, u(next.Mana))
	var acc Hash
	copy(acc[:], id[1:])
	for _, a := range m.t.Allotments {
		if a.AccountID == acc {
			out = sub(out, u(a.Mana))
		}
	}
	lock := m.past + m.p.MaxCA
	for _, o := range m.t.Outputs {
		a, l := o.UC(UCAddress), o.UC(UCTimelock)
		if a != nil && l != nil && l.Slot > lock && a.Addr.Kind == AddrAccount && a.Addr.ID == acc {
			out = sub(out, u(o.Mana))
		}
	}
	if in.Cmp(out) < 0 {
		m.v.add("mana-moved-off-account", "L07")
	}
}

func (m *vmState) account(i int, cur, next *Output, id string) {
	_, claiming := m.r.Rewards[id]
	removing := false
	if next == nil {
		if !m.t.Cap(CapDestAccount) {
			m.v.add("destroy-account", "L12", "L06")
		}
		if f := cur.Feat(FBlockIssuer); f != nil {
			if m.r.CommitSlot == nil {
				m.v.add("issuer-without-commitment", "L07")
			} else if f.Expiry >= *m.r.CommitSlot {
				m.v.add("issuer-destroyed-early", "L07")
			}
			m.bic(id)
		}
		if f := cur.Feat(FStaking); f != nil {
			switch {
			case m.r.CommitSlot == nil:
				m.v.add("staking-without-commitment", "L08")
			case m.p.Epoch(m.future) <= f.End:
				m.v.add("staking-destroyed-early", "L08")
			default:
				removing = true
			}
		}
	} else {
		if !sameImm(cur, next) {
			m.v.add("immutable-changed", "L06", "L10")
		}
		if cur.Feat(FBlockIssuer) != nil {
			m.bic(id)
		}
		removing = m.staking(cur, next)
		m.counter(cur, next, id)
		m.issuerSTVF(i, cur, cur.Feat(FBlockIssuer), next, id)
	}
	if claiming && !removing {
		m.v.add("staking-claim-without-removal", "L08", "L02")
	}
	if removing && !claiming {
		m.v.add("staking-removal-without-claim", "L08")
	}
}

func (m *vmState) staking(cur, next *Output) (removing bool) {
	c, n := cur.Feat(FStaking), next.Feat(FStaking)
	switch {
	case c == nil && n == nil:
	case c == nil:
		m.stakingGenesis(n)
	case m.r.CommitSlot == nil:
		m.v.add("staking-without-commitment", "L08")
	case m.p.Epoch(m.future) <= c.End:
		switch {
		case n == nil:
			m.v.add("staking-removed-early", "L08")
		case c.Staked != n.Staked || c.FixedCost != n.FixedCost || c.Start != n.Start:
			m.v.add("staking-modified", "L08")
		case c.End != n.End && n.End < m.p.Epoch(m.past)+m.p.Unbonding:
			m.v.add("staking-end", "L08")
		}
	case n == nil:
		return true
	case *c.flat() != *n.flat():
		m.stakingGenesis(n)
		return true
	}
	return false
}

type flatStaking struct {
	staked, cost uint64
	start, end   uint32
}

func (f *Feat) flat() *flatStaking { return &flatStaking{f.Staked, f.FixedCost, f.Start, f.End} }

func (m *vmState) counter(cur, next *Output, id string) {
	if next.FoundryCounter < cur.FoundryCounter {
		m.v.add("foundry-counter", "L06", "L03")
		return
	}
	if next.FoundryCounter == cur.FoundryCounter {
		return
	}
	n := uint32(0)
	for _, o := range m.t.Outputs {
		if o.Kind != OutFoundry {
			continue
		}
		a := o.UC(UCImmAccount).Addr.ID
		fid := o.FoundryID()
		if _, old := m.inChain["F"+string(fid[:])]; !old && "A"+string(a[:]) == id {
			n++
		}
	}
	if next.FoundryCounter-cur.FoundryCounter != n {
		m.v.add("foundry-counter", "L06", "L03")
	}
}

func (m *vmState) anchor(cur, next *Output) {
	if next == nil {
		if !m.t.Cap(CapDestAnchor) {
			m.v.add("destroy-anchor", "L12", "L06")
		}
		return
	}
	if !sameImm(cur, next) {
		m.v.add("immutable-changed", "L06", "L10")
	}
	if cur.StateIndex == next.StateIndex {
		if cur.Amount != next.Amount || featBytes(cur.Feat(FStateMetadata)) != featBytes(next.Feat(FStateMetadata)) {
			m.v.add("anchor-governance", "L06")
		}
		return
	}
	if next.StateIndex != cur.StateIndex+1 {
		m.v.add("anchor-state-index", "L06")
	}
	if !cur.UC(UCStateCtrl).Addr.Equal(next.UC(UCStateCtrl).Addr) || !cur.UC(UCGovernor).Addr.Equal(next.UC(UCGovernor).Addr) ||
		featBytes(cur.Feat(FMetadata)) != featBytes(next.Feat(FMetadata)) {
		m.v.add("anchor-state", "L06")
	}
}

func (m *vmState) foundry(cur, next *Output) {
	id := cur.FoundryID()
	in, out := val(m.ntIn, id), val(m.ntOut, id)
	if next == nil {
		if !m.t.Cap(CapDestFoundry) {
			m.v.add("destroy-foundry", "L12", "L06")
		}
		if add(cur.Minted, sub(out, in)).Cmp(cur.Melted) != 0 {
			m.v.add("foundry-destroyed-with-supply", "L03")
		}
		return
	}
	if !sameImm(cur, next) {
		m.v.add("immutable-changed", "L06")
	}
	if cur.MaxSupply.Cmp(next.MaxSupply) != 0 {
		m.v.add("max-supply-changed", "L03")
	}
	dMint, dMelt, d := sub(next.Minted, cur.Minted), sub(next.Melted, cur.Melted), sub(out, in)
	if dMint.Sign() < 0 || dMelt.Sign() < 0 {
		m.v.add("minted-melted-decreased", "L03")
	}
	ok := true
	switch d.Sign() {
	case 1:
		ok = dMint.Cmp(d) == 0 && dMelt.Sign() == 0
	case -1:
		ok = dMelt.Cmp(new(big.Int).Neg(d)) == 0 && dMint.Sign() == 0
	default:
		ok = dMint.Sign() == 0 && dMelt.Sign() == 0
	}
	if !ok {
		m.v.add("minted-melted-delta", "L03")
	}
}

func (m *vmState) delegation(cur, next *Output, id string) {
	_, claiming := m.r.Rewards[id]
	if next == nil {
		if !claiming {
			m.v.add("delegation-destroyed-without-claim", "L09", "L12")
		}
		return
	}
	if claiming {
		m.v.add("delegation-transition-claims", "L09", "L02")
	}
	if cur.ID != (Hash{}) {
		m.v.add("delegation-transitioned-twice", "L09")
	}
	if cur.Delegated != next.Delegated || !cur.Validator.Equal(next.Validator) || cur.Start != next.Start {
		m.v.add("delegation-modified", "L09")
	}
	if m.r.CommitSlot == nil {
		m.v.add("delegation-without-commitment", "L09")
		return
	}
	e := m.p.Epoch(m.future)
	want := e
	if m.future > m.p.Registration(e) {
		want = e + 1
	}
	if next.End != want {
		m.v.add("delegation-end", "L09")
	}
}

// CheckBlock evaluates the rules for a decoded block; size is its length in bytes.
// Transactions are checked with CheckSyntax separately.
func (p *Params) CheckBlock(b *Block, size int) (v Viols) {
	if size > 32768 {
		v.add("block-size", "B01")
	}
	if b.Version != p.Version {
		v.add("block-version", "B01")
	}
	if b.NetworkID != p.NetworkID() {
		v.add("block-network", "B01", "B02")
	}
	if b.IssuingTime >= 1<<63-1 {
		v.add("block-issuing-time", "B02", "B03", "B01")
	}
	for _, w := range b.Weak {
		for _, l := range [][]ID36{b.Strong, b.Shallow} {
			for _, x := range l {
				if x == w {
					v.add("block-weak-parents", "B01")
				}
			}
		}
	}
	slot := uint64(p.SlotFromTime(b.IssuingTime))
	c := uint64(SlotOf(b.Commitment))
	if c > uint64(p.GenesisSlot) && slot < c+uint64(p.MinCA) {
		v.add("block-commitment-too-recent", "B01")
	}
	if slot > c+uint64(p.MaxCA) {
		v.add("block-commitment-too-old", "B01")
	}
	if b.BodyType == BodyValidation {
		if b.HighestVersion < b.Version {
			v.add("block-highest-version", "B01")
		}
		return v
	}
	if b.PayloadKind == PayloadTx {
		t := b.Tx.Tx
		if uint64(t.CreationSlot) > slot {
			v.add("block-tx-too-new", "B01")
		}
		if ci := t.Commitment(); ci != nil {
			s := uint64(SlotOf(ci.Commit))
			if s > uint64(p.GenesisSlot) && slot < s+uint64(p.MinCA) {
				v.add("block-commitment-input-too-recent", "B01", "L05")
			}
			if slot > s+uint64(p.MaxCA) {
				v.add("block-commitment-input-too-old", "B01", "L05")
			}
			if s > c {
				v.add("block-commitment-input-newer", "B01")
			}
		}
	}
	return v
}
