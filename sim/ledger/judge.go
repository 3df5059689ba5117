package ledger

import (
	"crypto/ed25519"
	"errors"
	"math/big"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/sim/model"
)

var errTrailing = errors.New("trailing bytes")
var errBlockSig = errors.New("block signature invalid")

// MV is the verdict of the reference model.
type MV struct {
	Stage string // decode, block-signature, none, missing, stub, vm, ok
	Why   string
	Viols model.Viols
	Block *model.Block
	Used  int
	Coins []*Coin
	Res   *model.Resolved
}

func (v *MV) OK() bool { return v.Stage == "ok" || v.Stage == "none" }
func (v *MV) Short() string {
	s := v.Stage
	if v.Why != "" {
		s += " (" + v.Why + ")"
	}
	if len(v.Viols) > 0 {
		s += " [" + v.Viols.String() + "]"
	}
	return s
}

// Chain0 is the chain of commitments as the model sees it.
type commits map[uint32]Commit

// modelJudge evaluates the bytes of a block with the model alone.
func modelJudge(p *model.Params, s *State, cs commits, env Env, b []byte) (v *MV) {
	v = &MV{Stage: "decode"}
	blk, used, err := model.DecBlock(b)
	v.Used = used
	if err != nil {
		v.Why = err.Error()
		return v
	}
	if used != len(b) {
		v.Why = "trailing bytes"
		return v
	}
	v.Block = blk
	v.Viols = p.CheckBlock(blk, len(b))
	if blk.PayloadKind == model.PayloadTx {
		v.Viols = append(v.Viols, p.CheckSyntax(blk.Tx)...)
	}
	if len(v.Viols) > 0 {
		v.Why = "rules"
		return v
	}
	v.Stage = "block-signature"
	if !ed25519.Verify(blk.Pub[:], model.BlockSigningMessage(blk), blk.Sig[:]) {
		return v
	}
	v.Stage = "none"
	if blk.PayloadKind != model.PayloadTx {
		return v
	}
	t := blk.Tx.Tx
	v.Stage = "missing"
	res := &model.Resolved{BIC: map[model.Hash]int64{}, Rewards: map[string]uint64{}}
	for _, id := range t.Inputs {
		c := s.Coins[id]
		if c == nil {
			return v
		}
		v.Coins = append(v.Coins, c)
		res.Outputs = append(res.Outputs, c.O)
	}
	v.Stage = "stub"
	slot := uint32(0)
	if ci := t.Commitment(); ci != nil {
		slot = model.SlotOf(ci.Commit)
		c, ok := cs[slot]
		if !ok || c.ID != ci.Commit {
			v.Why = "commitment"
			return v
		}
		res.CommitSlot = &slot
	}
	for _, c := range t.Ctx {
		switch c.Type {
		case model.CtxBIC:
			res.BIC[c.AccountID] = env.BIC(c.AccountID, slot)
		case model.CtxReward:
			coin := v.Coins[c.Index]
			if coin.O.Kind != model.OutAccount && coin.O.Kind != model.OutDelegation {
				v.Why = "reward input"
				return v
			}
			res.Rewards[coin.Chain()] = env.Reward(coin.Chain(), slot)
		}
	}
	v.Res = res
	v.Stage = "vm"
	v.Viols = p.Execute(blk.Tx, res)
	if len(v.Viols) == 0 {
		v.Stage = "ok"
	}
	return v
}

// touched names the properties whose rules are about things that occur in the transaction.
func touched(v *MV) []string {
	ps := map[string]bool{}
	add := func(xs ...string) {
		for _, x := range xs {
			ps[x] = true
		}
	}
	var os []*model.Output
	for _, c := range v.Coins {
		os = append(os, c.O)
	}
	var t *model.Tx
	if v.Block != nil && v.Block.Tx != nil {
		t = v.Block.Tx.Tx
		os = append(os, t.Outputs...)
	}
	for _, o := range os {
		if o.Feat(model.FNativeToken) != nil || o.Kind == model.OutFoundry {
			add("L03")
		}
		if o.UC(model.UCTimelock) != nil || o.UC(model.UCExpiration) != nil {
			add("L05")
		}
		if o.IsChain() {
			add("L06")
		}
		if o.IsImplicit() {
			add("L07", "L11")
		}
		if o.Feat(model.FBlockIssuer) != nil {
			add("L07")
		}
		if o.Feat(model.FStaking) != nil {
			add("L08")
		}
		if o.Kind == model.OutDelegation {
			add("L09")
		}
		if o.Feat(model.FSender) != nil || o.ImmFeat(model.FIssuer) != nil {
			add("L10")
		}
		for _, u := range o.UCs {
			if u.Addr != nil && u.Addr.Kind == model.AddrRestricted {
				add("L11")
			}
		}
	}
	if t != nil {
		add("L02", "L04", "L13")
		if len(t.Caps) > 0 {
			add("L12")
		}
	}
	var r []string
	for p := range ps {
		r = append(r, p)
	}
	return r
}

var sentinels = []struct {
	err   error
	props []string
}{
	{iotago.ErrTxEssenceNetworkIDInvalid, []string{"L14"}},
	{iotago.ErrInputUTXORefsNotUnique, []string{"L14"}},
	{iotago.ErrInputRewardIndexExceedsMaxInputsCount, []string{"L14", "L08", "L09"}},
	{iotago.ErrAccountOutputNonEmptyState, []string{"L14"}},
	{iotago.ErrAccountOutputCyclicAddress, []string{"L14"}},
	{iotago.ErrAccountOutputAmountLessThanStakedAmount, []string{"L08", "L14"}},
	{iotago.ErrAnchorOutputCyclicAddress, []string{"L14"}},
	{iotago.ErrAnchorOutputNonEmptyState, []string{"L14"}},
	{iotago.ErrNFTOutputCyclicAddress, []string{"L14"}},
	{iotago.ErrOutputsSumExceedsTotalSupply, []string{"L13"}},
	{iotago.ErrAmountMustBeGreaterThanZero, []string{"L13"}},
	{iotago.ErrStorageDepositNotCovered, []string{"L13"}},
	{iotago.ErrStorageDepositLessThanMinReturnOutputStorageDeposit, []string{"L13"}},
	{iotago.ErrStorageDepositExceedsTargetOutputAmount, []string{"L13"}},
	{iotago.ErrMaxManaExceeded, []string{"L02", "L14"}},
	{iotago.ErrManaDecayCreationIndexExceedsTargetIndex, []string{"L02"}},
	{iotago.ErrManaOverflow, []string{"L02"}},
	{iotago.ErrInputOutputManaMismatch, []string{"L02", "L12"}},
	{iotago.ErrInputCreationAfterTxCreation, []string{"L02"}},
	{iotago.ErrInputOutputBaseTokenMismatch, []string{"L01"}},
	{iotago.ErrReturnAmountNotFulFilled, []string{"L01"}},
	{iotago.ErrInputUnlockCountMismatch, []string{"L14", "L04"}},
	{iotago.ErrSignatureAndAddrIncompatible, []string{"L04"}},
	{iotago.ErrUnlockSignatureInvalid, []string{"L04"}},
	{iotago.ErrSignatureUnlockNotUnique, []string{"L04", "L14"}},
	{iotago.ErrMultiUnlockNotUnique, []string{"L04", "L14"}},
	{iotago.ErrReferentialUnlockInvalid, []string{"L04", "L14"}},
	{iotago.ErrNestedMultiUnlock, []string{"L04", "L14"}},
	{iotago.ErrEmptyUnlockOutsideMultiUnlock, []string{"L04", "L14"}},
	{iotago.ErrChainAddressUnlockInvalid, []string{"L04"}},
	{iotago.ErrDirectUnlockableAddressUnlockInvalid, []string{"L04"}},
	{iotago.ErrMultiAddressUnlockInvalid, []string{"L04"}},
	{iotago.ErrMultiAddressLengthUnlockLengthMismatch, []string{"L04"}},
	{iotago.ErrMultiAddressUnlockThresholdNotReached, []string{"L04"}},
	{iotago.ErrMultiAddressWeightInvalid, []string{"L04", "L14"}},
	{iotago.ErrMultiAddressThresholdInvalid, []string{"L04", "L14"}},
	{iotago.ErrEd25519PubKeyAndAddrMismatch, []string{"L04"}},
	{iotago.ErrEd25519SignatureInvalid, []string{"L04"}},
	{iotago.ErrSenderFeatureNotUnlocked, []string{"L10"}},
	{iotago.ErrIssuerFeatureNotUnlocked, []string{"L10"}},
	{iotago.ErrTxCapabilitiesNativeTokenBurningNotAllowed, []string{"L12", "L03"}},
	{iotago.ErrTxCapabilitiesManaBurningNotAllowed, []string{"L12", "L02"}},
	{iotago.ErrTxCapabilitiesAccountDestructionNotAllowed, []string{"L12"}},
	{iotago.ErrTxCapabilitiesAnchorDestructionNotAllowed, []string{"L12"}},
	{iotago.ErrTxCapabilitiesFoundryDestructionNotAllowed, []string{"L12"}},
	{iotago.ErrTxCapabilitiesNFTDestructionNotAllowed, []string{"L12"}},
	{iotago.ErrTxEssenceCapabilitiesInvalid, []string{"L12", "L14"}},
	{iotago.ErrBitmaskTrailingZeroBytes, []string{"L12", "L11", "L14"}},
	{iotago.ErrStakingBlockIssuerFeatureMissing, []string{"L08"}},
	{iotago.ErrStakingCommitmentInputMissing, []string{"L08"}},
	{iotago.ErrStakingEndEpochTooEarly, []string{"L08"}},
	{iotago.ErrStakingFeatureModifiedBeforeUnbonding, []string{"L08"}},
	{iotago.ErrStakingFeatureRemovedBeforeUnbonding, []string{"L08"}},
	{iotago.ErrStakingRewardCalculationFailure, []string{"L08"}},
	{iotago.ErrStakingRewardClaimingInvalid, []string{"L08"}},
	{iotago.ErrStakingRewardInputMissing, []string{"L08"}},
	{iotago.ErrStakingStartEpochInvalid, []string{"L08"}},
	{iotago.ErrFoundryTransitionWithoutAccount, []string{"L03", "L06"}},
	{iotago.ErrFoundrySerialInvalid, []string{"L03", "L06"}},
	{iotago.ErrFoundryIDNativeTokenIDMismatch, []string{"L03"}},
	{iotago.ErrAccountInvalidFoundryCounter, []string{"L03", "L06"}},
	{iotago.ErrSimpleTokenSchemeGenesisInvalid, []string{"L03"}},
	{iotago.ErrSimpleTokenSchemeInvalidMaximumSupply, []string{"L03"}},
	{iotago.ErrSimpleTokenSchemeInvalidMintedMeltedTokens, []string{"L03"}},
	{iotago.ErrSimpleTokenSchemeMaximumSupplyChanged, []string{"L03"}},
	{iotago.ErrSimpleTokenSchemeMeltingInvalid, []string{"L03"}},
	{iotago.ErrSimpleTokenSchemeMintedMeltedTokenDecrease, []string{"L03"}},
	{iotago.ErrSimpleTokenSchemeMintingInvalid, []string{"L03"}},
	{iotago.ErrSimpleTokenSchemeTransition, []string{"L03"}},
	{iotago.ErrNativeTokenAmountLessThanEqualZero, []string{"L03", "L14"}},
	{iotago.ErrNativeTokenSetInvalid, []string{"L03"}},
	{iotago.ErrNativeTokenSumExceedsUint256, []string{"L03"}},
	{iotago.ErrNativeTokenSumUnbalanced, []string{"L03"}},
	{iotago.ErrBlockIssuerCommitmentInputMissing, []string{"L07"}},
	{iotago.ErrBlockIssuerExpiryTooEarly, []string{"L07"}},
	{iotago.ErrBlockIssuerNotExpired, []string{"L07"}},
	{iotago.ErrBlockIssuanceCreditInputMissing, []string{"L07"}},
	{iotago.ErrManaMovedOffBlockIssuerAccount, []string{"L07"}},
	{iotago.ErrAccountLocked, []string{"L07"}},
	{iotago.ErrImplicitAccountDestructionDisallowed, []string{"L07", "L12"}},
	{iotago.ErrMultipleImplicitAccountCreationAddresses, []string{"L11", "L07"}},
	{iotago.ErrImplicitAccountCreationAddressInInvalidOutput, []string{"L11"}},
	{iotago.ErrImplicitAccountCreationAddressInInvalidUnlockCondition, []string{"L11"}},
	{iotago.ErrAddressCannotReceiveNativeTokens, []string{"L11"}},
	{iotago.ErrAddressCannotReceiveMana, []string{"L11"}},
	{iotago.ErrAddressCannotReceiveTimelockUnlockCondition, []string{"L11"}},
	{iotago.ErrAddressCannotReceiveExpirationUnlockCondition, []string{"L11"}},
	{iotago.ErrAddressCannotReceiveStorageDepositReturnUnlockCondition, []string{"L11"}},
	{iotago.ErrAddressCannotReceiveAccountOutput, []string{"L11"}},
	{iotago.ErrAddressCannotReceiveAnchorOutput, []string{"L11"}},
	{iotago.ErrAddressCannotReceiveNFTOutput, []string{"L11"}},
	{iotago.ErrAddressCannotReceiveDelegationOutput, []string{"L11"}},
	{iotago.ErrInvalidRestrictedAddress, []string{"L11", "L14"}},
	{iotago.ErrInvalidNestedAddressType, []string{"L04", "L11", "L14"}},
	{iotago.ErrWeakParentsInvalid, []string{"B01"}},
	{iotago.ErrTransactionCreationSlotTooRecent, []string{"B01"}},
	{iotago.ErrCommitmentTooOld, []string{"B01"}},
	{iotago.ErrCommitmentTooRecent, []string{"B01"}},
	{iotago.ErrCommitmentInputTooOld, []string{"B01", "L05"}},
	{iotago.ErrCommitmentInputTooRecent, []string{"B01", "L05"}},
	{iotago.ErrCommitmentInputNewerThanCommitment, []string{"B01"}},
	{iotago.ErrInvalidBlockVersion, []string{"B01"}},
	{iotago.ErrBlockMaxSizeExceeded, []string{"B01"}},
	{iotago.ErrBlockNetworkIDInvalid, []string{"B01"}},
	{iotago.ErrHighestSupportedVersionTooSmall, []string{"B01"}},
	{iotago.ErrNonUniqueUnlockConditions, []string{"L14"}},
	{iotago.ErrNonUniqueFeatures, []string{"L14"}},
	{iotago.ErrTimelockCommitmentInputMissing, []string{"L05"}},
	{iotago.ErrTimelockNotExpired, []string{"L05"}},
	{iotago.ErrTimelockConditionZero, []string{"L05", "L14"}},
	{iotago.ErrExpirationCommitmentInputMissing, []string{"L05"}},
	{iotago.ErrExpirationNotUnlockable, []string{"L05"}},
	{iotago.ErrExpirationConditionZero, []string{"L05", "L14"}},
	{iotago.ErrAnchorInvalidStateTransition, []string{"L06"}},
	{iotago.ErrAnchorInvalidGovernanceTransition, []string{"L06"}},
	{iotago.ErrNonUniqueChainOutputs, []string{"L06", "L14"}},
	{iotago.ErrNewChainOutputHasNonZeroedID, []string{"L06"}},
	{iotago.ErrChainOutputImmutableFeaturesChanged, []string{"L06"}},
	{iotago.ErrChainMissing, []string{"L06"}},
	{iotago.ErrInvalidFeatureTransition, []string{"L06"}},
	{iotago.ErrDelegationAmountMismatch, []string{"L09"}},
	{iotago.ErrDelegationCommitmentInputMissing, []string{"L09"}},
	{iotago.ErrDelegationEndEpochInvalid, []string{"L09"}},
	{iotago.ErrDelegationEndEpochNotZero, []string{"L09"}},
	{iotago.ErrDelegationModified, []string{"L09"}},
	{iotago.ErrDelegationOutputTransitionedTwice, []string{"L09"}},
	{iotago.ErrDelegationRewardCalculationFailure, []string{"L09"}},
	{iotago.ErrDelegationRewardInputMissing, []string{"L09"}},
	{iotago.ErrDelegationRewardsClaimingInvalid, []string{"L09"}},
	{iotago.ErrDelegationStartEpochInvalid, []string{"L09"}},
	{iotago.ErrDelegationValidatorAddressEmpty, []string{"L09", "L14"}},
	{iotago.ErrMetadataExceedsMaxSize, []string{"L14"}},
	{iotago.ErrInvalidMetadataKey, []string{"L14"}},
	{iotago.ErrInvalidStateMetadataKey, []string{"L14"}},
	{iotago.ErrArrayValidationOrderViolatesLexicalOrder, []string{"L14", "B03"}},
	{iotago.ErrArrayValidationViolatesUniqueness, []string{"L14", "B03"}},
}

// refusalProps names the properties a wrong refusal violates.
func refusalProps(v *Verdict, m *MV) []string {
	isTx := m.Block != nil && m.Block.PayloadKind == model.PayloadTx
	var ps []string
	known := false
	for _, s := range sentinels {
		if errors.Is(v.Err, s.err) {
			ps = append(ps, s.props...)
			known = true
		}
	}
	switch {
	case v.Stage == "decode":
		ps = append(ps, "B03")
		if isTx {
			ps = append(ps, "L14", "L01")
		}
		if !known {
			ps = append(ps, "B01")
		}
	case v.Stage == "block-signature":
		return []string{"B02"}
	default:
		ps = append(ps, "L01")
		if v.Stage == "unlock" {
			ps = append(ps, "L04")
		}
	}
	if !known {
		ps = append(ps, touched(m)...)
	}
	return ps
}

// acceptProps names the properties a wrong acceptance violates.
func acceptProps(m *MV) []string {
	if m.Stage == "block-signature" {
		return []string{"B02"}
	}
	if len(m.Viols) == 0 {
		return []string{"L14", "B03", "B01", "L11", "L12", "L04", "L15"}
	}
	var ps []string
	for _, x := range m.Viols {
		ps = append(ps, x.Props...)
	}
	return ps
}

// compare checks what a node made of some bytes against the model.
func (w *run) compare(n *Node, v *Verdict, m *MV, what string) {
	c := w.c
	c.Evals++
	if v.Panic != "" {
		ps := append(touched(m), "L15", "L14", "B01", "B03")
		for _, x := range m.Viols {
			ps = append(ps, x.Props...)
		}
		c.FailFor(ps, "panic:"+v.Panic, "%s: node %d panicked: %s", what, n.ID, errText(v.Err))
	}
	if v.Stage == "storage" || v.Stage == "id" {
		c.FailFor([]string{"B03", "L15"}, "storage", "%s: node %d can not use what it stored or decoded: %v", what, n.ID, v.Err)
	}
	if m.OK() && !v.OK() {
		c.FailFor(refusalProps(v, m), "refused-valid:"+errClass(v.Err), "%s: node %d refuses what the rules allow: %s", what, n.ID, v.Short())
	}
	if !m.OK() && v.OK() {
		c.FailFor(acceptProps(m), "accepted-invalid:"+m.Stage+":"+m.Viols.String(), "%s: node %d accepts what the rules forbid: %s", what, n.ID, m.Short())
	}
	phase := func(s string) int {
		switch s {
		case "decode":
			return 0
		case "block-signature":
			return 1
		case "missing", "stub", "unlock", "execute", "vm":
			return 2
		}
		return 3
	}
	if phase(v.Stage) > phase(m.Stage) {
		// The bytes should not have passed as a block.
		c.FailFor(acceptProps(m), "passed:"+m.Stage+":"+m.Viols.String(), "%s: node %d lets a block pass that the rules forbid: node %s, rules %s", what, n.ID, v.Short(), m.Short())
	}
	if phase(v.Stage) < phase(m.Stage) {
		c.FailFor(refusalProps(v, m), "refused-block:"+errClass(v.Err), "%s: node %d refuses a well-formed block: node %s, rules %s", what, n.ID, v.Short(), m.Short())
	}
	if v.Block == nil || m.Block == nil {
		return
	}
	w.compareIDs(n, v, m, what)
}

func errClass(err error) string {
	for _, s := range sentinels {
		if errors.Is(err, s.err) {
			return s.err.Error()
		}
	}
	return "other"
}

// compareIDs checks identifiers, sizes, re-encoding and work of a block both sides could read.
func (w *run) compareIDs(n *Node, v *Verdict, m *MV, what string) {
	c := w.c
	if id := w.p.BlockID(m.Block); model.ID36(v.BlockID) != id {
		c.FailFor([]string{"B02", "L15"}, "block-id", "%s: block ID %x, from the layout %x", what, v.BlockID[:], id[:])
	}
	if v.Tx != nil {
		if id := model.TxID(m.Block.Tx.Tx); model.ID36(v.TxID) != id {
			c.FailFor([]string{"B02", "L15"}, "tx-id", "%s: transaction ID %x, from the layout %x", what, v.TxID[:], id[:])
		}
		if id := model.SignedTxID(m.Block.Tx); model.ID36(v.SignedID) != id {
			c.FailFor([]string{"B02", "L15"}, "signed-tx-id", "%s: signed transaction ID %x, from the layout %x", what, v.SignedID[:], id[:])
		}
	}
	if !w.full && !w.rng.Pct(10) {
		return
	}
	if w.c.Prop == "B04" || w.full {
		w.compareWork(v, m, what)
	}
	if sz, want := v.Block.Size(), len(model.EncBlock(m.Block)); sz != want {
		c.FailFor([]string{"B03"}, "block-size", "%s: size %d, bytes %d", what, sz, want)
	}
	b, err := n.API.Encode(v.Block, serix.WithValidation())
	if err != nil {
		c.FailFor([]string{"B03"}, "reencode", "%s: an accepted block does not encode: %v", what, err)
	}
	if string(b) != string(model.EncBlock(m.Block)) {
		c.FailFor([]string{"B03", "L15"}, "reencode-differs", "%s: an accepted block encodes to other bytes", what)
	}
	if got, want := uint32(v.Block.Slot()), w.p.SlotFromTime(m.Block.IssuingTime); got != want {
		c.FailFor([]string{"B05", "B01"}, "block-slot", "%s: block slot %d, expected %d", what, got, want)
	}
}

func (w *run) compareWork(v *Verdict, m *MV, what string) {
	c := w.c
	want := w.p.WorkScore(m.Block)
	got, err := v.Block.WorkScore()
	if want.BitLen() > 32 {
		if err == nil {
			c.FailFor([]string{"B04"}, "work-wraps", "%s: work score %v does not fit but %d was returned", what, want, got)
		}
		return
	}
	if err != nil || want.Cmp(big.NewInt(int64(got))) != 0 {
		c.FailFor([]string{"B04"}, "work-score", "%s: work score %d (%v), expected %v", what, got, err, want)
	}
	if top := v.Block.API.MaxBlockWork(); got > top {
		c.FailFor([]string{"B04"}, "work-above-maximum", "%s: work score %d, the largest of any block is said to be %d", what, got, top)
	}
	for _, rmc := range []uint64{1, 500, w.rng.U64() >> uint(w.rng.Intn(64)), ^uint64(0)} {
		wc, ok := w.p.ManaCost(m.Block, rmc)
		gc, err := v.Block.ManaCost(iotago.Mana(rmc))
		if ok != (err == nil) || ok && uint64(gc) != wc {
			c.FailFor([]string{"B04"}, "mana-cost", "%s: mana cost %d (%v) at %d, expected %d (fits: %v)", what, gc, err, rmc, wc, ok)
		}
	}
	c.Count("work-compared")
}
