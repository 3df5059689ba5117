package ledger

import (
	"bytes"
	"crypto/ed25519"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

// opIssue issues a block without a transaction with the block builders.
func (w *run) opIssue() {
	c, r := w.c, w.rng
	slot := w.skewed()
	b := w.blockAt(slot)
	api := RealAPI(w.p)
	key := core.Pick(r, allKeys)
	signer := iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(key.Priv)
	addr := iotago.Ed25519AddressFromPubKey(key.Pub[:])
	ids := func(x []model.ID36) (y iotago.BlockIDs) {
		for _, i := range r.Perm(len(x)) {
			y = append(y, iotago.BlockID(x[i]))
			if r.Pct(10) {
				y = append(y, iotago.BlockID(x[i]))
			}
		}
		return
	}
	var blk *iotago.Block
	var err error
	rmc := core.Pick(r, []uint64{0, 1, r.U64() >> uint(r.Intn(64))})
	burn, over := false, false
	at := time.Unix(0, int64(b.IssuingTime))
	if r.Bool() {
		at = at.In(time.FixedZone("far", r.Range(-12, 12)*3600+30))
	}
	what := "validation"
	if r.Pct(30) {
		b.BodyType, b.HighestVersion, b.ParamsHash, b.MaxBurned = model.BodyValidation, w.p.Version+byte(r.Intn(3)), r.Hash(), 0
		bb := builder.NewValidationBlockBuilder(api)
		do := []func(){
			func() { bb.IssuingTime(at) },
			func() { bb.SlotCommitmentID(iotago.CommitmentID(b.Commitment)) },
			func() { bb.LatestFinalizedSlot(iotago.SlotIndex(b.Finalized)) },
			func() { bb.StrongParents(ids(b.Strong)) },
			func() { bb.WeakParents(ids(b.Weak)) },
			func() { bb.ShallowLikeParents(ids(b.Shallow)) },
			func() { bb.HighestSupportedVersion(iotago.Version(b.HighestVersion)) },
			func() { bb.ProtocolParametersHash(iotago.Identifier(b.ParamsHash)) },
		}
		for _, i := range r.Perm(len(do)) {
			do[i]()
		}
		if r.Bool() {
			bb.Sign(iotago.AccountID(b.Issuer), key.Priv)
		} else {
			bb.SignWithSigner(iotago.AccountID(b.Issuer), signer, addr)
		}
		blk, err = bb.Build()
	} else {
		bb := builder.NewBasicBlockBuilder(api)
		do := []func(){
			func() { bb.IssuingTime(at) },
			func() { bb.SlotCommitmentID(iotago.CommitmentID(b.Commitment)) },
			func() { bb.LatestFinalizedSlot(iotago.SlotIndex(b.Finalized)) },
			func() { bb.StrongParents(ids(b.Strong)) },
			func() { bb.WeakParents(ids(b.Weak)) },
			func() { bb.ShallowLikeParents(ids(b.Shallow)) },
		}
		what = "empty"
		switch r.Intn(3) {
		case 1:
			what = "tagged"
			b.PayloadKind, b.Tagged = model.PayloadTagged, &model.Tagged{Tag: r.Bytes(r.Intn(65)), Data: r.Bytes(r.Intn(200))}
			do = append(do, func() { bb.Payload(&iotago.TaggedData{Tag: b.Tagged.Tag, Data: b.Tagged.Data}) })
		case 2:
			what = "candidacy"
			b.PayloadKind = model.PayloadCandidacy
			do = append(do, func() { bb.Payload(&iotago.CandidacyAnnouncement{}) })
		}
		for _, i := range r.Perm(len(do)) {
			do[i]()
		}
		if burn = r.Bool(); burn {
			var ok bool
			b.MaxBurned, ok = w.p.ManaCost(b, rmc)
			over = !ok
			bb.CalculateAndSetMaxBurnedMana(iotago.Mana(rmc))
		} else {
			bb.MaxBurnedMana(iotago.Mana(b.MaxBurned))
		}
		if r.Bool() {
			bb.Sign(iotago.AccountID(b.Issuer), key.Priv)
		} else {
			bb.SignWithSigner(iotago.AccountID(b.Issuer), signer, addr)
		}
		blk, err = bb.Build()
	}
	c.Evals++
	c.Count("issue." + what)
	if over {
		c.Check(err != nil, "burn-overflow", "the block's cost at %d is more than there can be", rmc)
		return
	}
	c.Check(err == nil, "refused-build", "the %s block could not be built: %v", what, err)
	b.Pub = key.Pub
	copy(b.Sig[:], ed25519.Sign(key.Priv, model.BlockSigningMessage(b)))
	if m := modelJudge(w.p, w.s, w.cs, w.env, model.EncBlock(b)); !m.OK() {
		c.Count("issue-invalid." + m.Stage)
		return
	}
	got, err := api.Encode(blk, serix.WithValidation())
	c.Check(err == nil, "invalid-block", "the built %s block is not valid: %v", what, err)
	if want := model.EncBlock(b); !bytes.Equal(got, want) {
		c.Fail("other-block", "the built %s block is\n%x\ninstead of\n%x\n%s", what, got, want, diffAt(got, want))
	}
	m := w.append(got, "issue:"+what)
	c.Check(m.OK(), "unacceptable", "the built %s block is not acceptable: %s", what, m.Short())
}
