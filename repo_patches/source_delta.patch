From fd806d1fb5fc6689deca2a528f83189e918438d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 01/36] fix: do not count the genesis slot into the slots for
 which mana is generated across epochs

---
 mana_decay_provider.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/mana_decay_provider.go b/mana_decay_provider.go
index ea66b3a..ae5f7cc 100644
--- a/mana_decay_provider.go
+++ b/mana_decay_provider.go
@@ -162,6 +162,24 @@ func (p *ManaDecayProvider) generateMana(value BaseToken, slotDiff SlotIndex) (M
 	return Mana(result), nil
 }
 
+// slotsBeforeNextEpoch returns the number of slots from the given slot up to the start of the next epoch.
+func (p *ManaDecayProvider) slotsBeforeNextEpoch(slot SlotIndex) SlotIndex {
+	if slot < p.timeProvider.GenesisSlot() {
+		return 0
+	}
+
+	return p.timeProvider.EpochStart(p.timeProvider.EpochFromSlot(slot)+1) - slot
+}
+
+// slotsSinceEpochStart returns the number of slots from the start of its epoch up to the given slot.
+func (p *ManaDecayProvider) slotsSinceEpochStart(slot SlotIndex) SlotIndex {
+	if slot < p.timeProvider.GenesisSlot() {
+		return 0
+	}
+
+	return slot - p.timeProvider.EpochStart(p.timeProvider.EpochFromSlot(slot))
+}
+
 // DecayManaBySlots applies the decay between the epochs corresponding to the creation and target slots to the given mana.
 func (p *ManaDecayProvider) DecayManaBySlots(mana Mana, creationSlot SlotIndex, targetSlot SlotIndex) (Mana, error) {
 	creationEpoch := p.timeProvider.EpochFromSlot(creationSlot)
@@ -203,7 +221,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 	// case 1 means that the creationSlot and targetSlot belong to subsequent epochs.
 	// In that case, we generate the mana for the slots belonging to the first epoch and decay it, later we add it to the undecayed mana of the second epoch
 	case 1:
-		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.timeProvider.SlotsBeforeNextEpoch(creationSlot))
+		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.slotsBeforeNextEpoch(creationSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the first epoch")
 		}
@@ -213,7 +231,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 			return 0, ierrors.Wrap(err, "failed to decay generated mana in the first epoch")
 		}
 
-		manaGeneratedSecondEpoch, err := p.generateMana(amount, p.timeProvider.SlotsSinceEpochStart(targetSlot))
+		manaGeneratedSecondEpoch, err := p.generateMana(amount, p.slotsSinceEpochStart(targetSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the second epoch")
 		}
@@ -228,7 +246,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 	// the default case means that the creationSlot and targetSlot belong to separated epochs.
 	// Parts of the generated mana are decayed by epochDiff epochs, other parts by epochDiff-1, and other parts are not decayed at all
 	default:
-		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.timeProvider.SlotsBeforeNextEpoch(creationSlot))
+		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.slotsBeforeNextEpoch(creationSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the first epoch")
 		}
@@ -254,7 +272,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 			return 0, ierrors.Wrap(err, "failed to decay generated mana in the intermediate epochs")
 		}
 
-		manaGeneratedLastEpoch, err := p.generateMana(amount, p.timeProvider.SlotsSinceEpochStart(targetSlot))
+		manaGeneratedLastEpoch, err := p.generateMana(amount, p.slotsSinceEpochStart(targetSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the last epoch")
 		}
-- 
2.43.0


From d1c92269f5a5d4a1fb646c5bc93a4720b413e6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 02/36] fix: refuse a foundry created together with the
 conversion of an implicit account instead of panicking

---
 vm/nova/vm.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vm/nova/vm.go b/vm/nova/vm.go
index 9f41510..dc5bda4 100644
--- a/vm/nova/vm.go
+++ b/vm/nova/vm.go
@@ -808,8 +808,16 @@ func foundryGenesisValid(vmParams *vm.Params, current *iotago.FoundryOutput, thi
 		)
 	}
 
+	// an implicit account, which is converted in this transaction, can not create foundries yet
+	inAccountOutput, isAccount := inAccount.Output.(*iotago.AccountOutput)
+	if !isAccount {
+		return ierrors.WithMessagef(iotago.ErrFoundryTransitionWithoutAccount,
+			"input %s for new foundry output %s is not an account output", accountID, thisFoundryID.ToHex(),
+		)
+	}
+
 	//nolint:forcetypeassert // we can safely assume that this is an AccountOutput
-	return foundrySerialNumberValid(vmParams, current, inAccount.Output.(*iotago.AccountOutput), outAccount.(*iotago.AccountOutput), thisFoundryID)
+	return foundrySerialNumberValid(vmParams, current, inAccountOutput, outAccount.(*iotago.AccountOutput), thisFoundryID)
 }
 
 func foundrySerialNumberValid(vmParams *vm.Params, current *iotago.FoundryOutput, inAccount *iotago.AccountOutput, outAccount *iotago.AccountOutput, thisFoundryID iotago.FoundryID) error {
-- 
2.43.0


From ee1a39a09c0d73663c6936d997555ec44ae5fbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 03/36] fix: do not read the cached bytes of the protocol
 parameters without holding their lock

---
 api_v3_protocol_parameters.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 281bcff..3551acb 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -147,14 +147,9 @@ func (p *V3ProtocolParameters) ChainSwitchingThreshold() uint8 {
 }
 
 func (p *V3ProtocolParameters) Bytes() ([]byte, error) {
-	if len(p.bytes) > 0 {
-		return p.bytes, nil
-	}
-
 	p.bytesMutex.Lock()
 	defer p.bytesMutex.Unlock()
 
-	// Check if some other goroutine cached the bytes while waiting for the lock.
 	if len(p.bytes) > 0 {
 		return p.bytes, nil
 	}
-- 
2.43.0


From 21ac133cc70eb06785a22360e5acf376575b4848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 04/36] fix: do not filter commitment inputs to the genesis
 commitment as too recent when the genesis slot is not zero

---
 block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block.go b/block.go
index b98835c..e74f456 100644
--- a/block.go
+++ b/block.go
@@ -426,7 +426,7 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 		if cInput := signedTransaction.Transaction.CommitmentInput(); cInput != nil {
 			cInputSlot := cInput.CommitmentID.Slot()
 			// check that commitment input is not too recent.
-			if cInputSlot > 0 && // Don't filter commitments to genesis based on being too recent.
+			if cInputSlot > block.API.ProtocolParameters().GenesisSlot() && // Don't filter commitments to genesis based on being too recent.
 				blockSlot < cInputSlot+minCommittableAge { // filter commitments to future slots.
 				return ierrors.WithMessagef(ErrCommitmentInputTooRecent, "block at slot %d with commitment input to slot %d, min committable age %d", blockSlot, cInput.CommitmentID.Slot(), minCommittableAge)
 			}
-- 
2.43.0


From 9a38760ccda0b0aec3dffc26cdde8b8d3906c12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 05/36] fix: refuse blocks whose commitment slot plus
 committable age overflows

---
 block.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/block.go b/block.go
index e74f456..1e6fcbb 100644
--- a/block.go
+++ b/block.go
@@ -313,12 +313,12 @@ func (b *Block) syntacticallyValidate() error {
 
 	// check that commitment is not too recent.
 	if commitmentSlot > genesisSlot && // Don't filter commitments to genesis based on being too recent.
-		blockSlot < commitmentSlot+minCommittableAge {
+		(blockSlot < commitmentSlot || blockSlot-commitmentSlot < minCommittableAge) { // written like this to not overflow.
 		return ierrors.WithMessagef(ErrCommitmentTooRecent, "block at slot %d committing to slot %d, min committable age %d", blockSlot, b.Header.SlotCommitmentID.Slot(), minCommittableAge)
 	}
 
 	// Check that commitment is not too old.
-	if blockSlot > commitmentSlot+maxCommittableAge {
+	if blockSlot > commitmentSlot && blockSlot-commitmentSlot > maxCommittableAge {
 		return ierrors.WithMessagef(ErrCommitmentTooOld, "block at slot %d committing to slot %d, max committable age %d", blockSlot, b.Header.SlotCommitmentID.Slot(), maxCommittableAge)
 	}
 
@@ -427,11 +427,11 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 			cInputSlot := cInput.CommitmentID.Slot()
 			// check that commitment input is not too recent.
 			if cInputSlot > block.API.ProtocolParameters().GenesisSlot() && // Don't filter commitments to genesis based on being too recent.
-				blockSlot < cInputSlot+minCommittableAge { // filter commitments to future slots.
+				(blockSlot < cInputSlot || blockSlot-cInputSlot < minCommittableAge) { // filter commitments to future slots.
 				return ierrors.WithMessagef(ErrCommitmentInputTooRecent, "block at slot %d with commitment input to slot %d, min committable age %d", blockSlot, cInput.CommitmentID.Slot(), minCommittableAge)
 			}
 			// Check that commitment input is not too old.
-			if blockSlot > cInputSlot+maxCommittableAge {
+			if blockSlot > cInputSlot && blockSlot-cInputSlot > maxCommittableAge {
 				return ierrors.WithMessagef(ErrCommitmentInputTooOld, "block at slot %d with commitment input to slot %d, max committable age %d", blockSlot, cInput.CommitmentID.Slot(), maxCommittableAge)
 			}
 
-- 
2.43.0


From a9d044b690fa6e924cbfe6649794fd247b45109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 06/36] fix: refuse truncated Ed25519 signatures instead of
 panicking

---
 signature_ed25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signature_ed25519.go b/signature_ed25519.go
index 6c2e492..5bf6429 100644
--- a/signature_ed25519.go
+++ b/signature_ed25519.go
@@ -38,6 +38,10 @@ func (e *Ed25519Signature) Clone() Signature {
 }
 
 func (e *Ed25519Signature) Decode(b []byte) (int, error) {
+	if len(b) < Ed25519SignatureSerializedBytesSize-1 {
+		return 0, ierrors.Wrap(serializer.ErrDeserializationNotEnoughData, "failed to decode Ed25519 signature")
+	}
+
 	copy(e.PublicKey[:], b[:ed25519.PublicKeySize])
 	copy(e.Signature[:], b[ed25519.PublicKeySize:])
 
-- 
2.43.0


From 9dd9a8c391b396debe0004df485df371d322b7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 07/36] fix: count the length prefix of a transaction's payload
 into its size and work score

---
 transaction_essence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction_essence.go b/transaction_essence.go
index d8dbc80..657a552 100644
--- a/transaction_essence.go
+++ b/transaction_essence.go
@@ -69,7 +69,7 @@ func (u *TransactionEssence) Clone() *TransactionEssence {
 func (u *TransactionEssence) Size() int {
 	payloadSize := serializer.PayloadLengthByteSize
 	if u.Payload != nil {
-		payloadSize = u.Payload.Size()
+		payloadSize += u.Payload.Size()
 	}
 
 	// NetworkID
-- 
2.43.0


From 5326ff8b932fbd6a2cb508359dd20de97cf3299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:42 +0000
Subject: [PATCH 08/36] fix: refuse block headers whose issuing time does not
 survive decoding

---
 api_v3.go |  4 ++++
 block.go  | 12 ++++++++++++
 error.go  |  2 ++
 3 files changed, 18 insertions(+)

diff --git a/api_v3.go b/api_v3.go
index 0393cae..6d4ee3e 100644
--- a/api_v3.go
+++ b/api_v3.go
@@ -623,6 +623,10 @@ func V3API(protoParams ProtocolParameters) API {
 		must(api.RegisterInterfaceObjects((*ApplicationPayload)(nil), (*TaggedData)(nil)))
 		must(api.RegisterInterfaceObjects((*ApplicationPayload)(nil), (*CandidacyAnnouncement)(nil)))
 
+		must(api.RegisterValidator(BlockHeader{}, func(_ context.Context, header BlockHeader) error {
+			return header.syntacticallyValidate()
+		}))
+
 		must(api.RegisterTypeSettings(Block{}, serix.TypeSettings{}))
 		must(api.RegisterValidator(Block{}, func(_ context.Context, block Block) error {
 			return block.syntacticallyValidate()
diff --git a/block.go b/block.go
index 1e6fcbb..8bc5c48 100644
--- a/block.go
+++ b/block.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/ed25519"
 	"fmt"
+	"math"
 	"time"
 
 	"golang.org/x/crypto/blake2b"
@@ -81,6 +82,17 @@ func (b *BlockHeader) Size() int {
 	return BlockHeaderLength
 }
 
+// syntacticallyValidate syntactically validates the BlockHeader.
+func (b *BlockHeader) syntacticallyValidate() error {
+	// Timestamps in nanoseconds which do not fit into an int64 are truncated to the maximum or wrap around to a time
+	// before the Unix epoch when they are decoded, in which case the header does not encode to the same bytes again.
+	if (b.IssuingTime.Unix() < 0 && !b.IssuingTime.IsZero()) || serializer.TimeToUint64(b.IssuingTime) == math.MaxInt64 {
+		return ierrors.WithMessagef(ErrBlockIssuingTimeInvalid, "%s", b.IssuingTime)
+	}
+
+	return nil
+}
+
 type Block struct {
 	API       API
 	Header    BlockHeader `serix:""`
diff --git a/error.go b/error.go
index 4843539..114dca3 100644
--- a/error.go
+++ b/error.go
@@ -10,6 +10,8 @@ import (
 var (
 	// ErrBlockParentNotFound gets returned when the block parent could not be found.
 	ErrBlockParentNotFound = ierrors.New("block parent not found")
+	// ErrBlockIssuingTimeInvalid gets returned when the issuing time of a block can not be represented.
+	ErrBlockIssuingTimeInvalid = ierrors.New("block issuing time can not be represented")
 	// ErrBlockIssuingTimeNonMonotonic gets returned when the block issuing time is not monotonically increasing compared to the block's parents.
 	ErrBlockIssuingTimeNonMonotonic = ierrors.New("block issuing time is not monotonically increasing compared to parents")
 	// ErrIssuerAccountNotFound gets returned when the issuer account could not be found.
-- 
2.43.0


From 18ff513c19c7e51f1c017fb849069bdb328035ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:30 +0000
Subject: [PATCH 09/36] fix: decode block issuer keys into the interface
 instead of a nil value

---
 block_issuer_key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block_issuer_key.go b/block_issuer_key.go
index 7f6a39e..45cfad5 100644
--- a/block_issuer_key.go
+++ b/block_issuer_key.go
@@ -177,7 +177,7 @@ func BlockIssuerKeyFromReader(reader io.ReadSeeker) (BlockIssuerKey, error) {
 func BlockIssuerKeyFromBytes(bytes []byte) (BlockIssuerKey, int, error) {
 	var blockIssuerKey BlockIssuerKey
 
-	n, err := CommonSerixAPI().Decode(context.TODO(), bytes, blockIssuerKey)
+	n, err := CommonSerixAPI().Decode(context.TODO(), bytes, &blockIssuerKey)
 	if err != nil {
 		return nil, 0, ierrors.Wrap(err, "unable to decode block issuer key")
 	}
-- 
2.43.0


From 0c82b795dde02a6ef708de8ab37edde43e87e2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:30 +0000
Subject: [PATCH 10/36] fix: require the unlock conditions of an output in its
 JSON form

---
 output_account.go    | 2 +-
 output_anchor.go     | 2 +-
 output_basic.go      | 2 +-
 output_delegation.go | 2 +-
 output_foundry.go    | 2 +-
 output_nft.go        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/output_account.go b/output_account.go
index aa169c3..441d78b 100644
--- a/output_account.go
+++ b/output_account.go
@@ -36,7 +36,7 @@ type AccountOutput struct {
 	// The counter that denotes the number of foundries created by this account.
 	FoundryCounter uint32 `serix:""`
 	// The unlock conditions on this output.
-	UnlockConditions AccountOutputUnlockConditions `serix:",omitempty"`
+	UnlockConditions AccountOutputUnlockConditions `serix:""`
 	// The features on the output.
 	Features AccountOutputFeatures `serix:",omitempty"`
 	// The immutable feature on the output.
diff --git a/output_anchor.go b/output_anchor.go
index 773c5b2..3148d35 100644
--- a/output_anchor.go
+++ b/output_anchor.go
@@ -34,7 +34,7 @@ type AnchorOutput struct {
 	// The index of the state.
 	StateIndex uint32 `serix:""`
 	// The unlock conditions on this output.
-	UnlockConditions AnchorOutputUnlockConditions `serix:",omitempty"`
+	UnlockConditions AnchorOutputUnlockConditions `serix:""`
 	// The features on the output.
 	Features AnchorOutputFeatures `serix:",omitempty"`
 	// The immutable feature on the output.
diff --git a/output_basic.go b/output_basic.go
index 67dc592..a9b8f04 100644
--- a/output_basic.go
+++ b/output_basic.go
@@ -21,7 +21,7 @@ type BasicOutput struct {
 	// The stored mana held by the output.
 	Mana Mana `serix:""`
 	// The unlock conditions on this output.
-	UnlockConditions BasicOutputUnlockConditions `serix:",omitempty"`
+	UnlockConditions BasicOutputUnlockConditions `serix:""`
 	// The features on the output.
 	Features BasicOutputFeatures `serix:",omitempty"`
 }
diff --git a/output_delegation.go b/output_delegation.go
index 3d85146..ec92da9 100644
--- a/output_delegation.go
+++ b/output_delegation.go
@@ -108,7 +108,7 @@ type DelegationOutput struct {
 	// The index of the last epoch for which this output delegates.
 	EndEpoch EpochIndex `serix:""`
 	// The unlock conditions on this output.
-	UnlockConditions DelegationOutputUnlockConditions `serix:",omitempty"`
+	UnlockConditions DelegationOutputUnlockConditions `serix:""`
 }
 
 func (d *DelegationOutput) Clone() Output {
diff --git a/output_foundry.go b/output_foundry.go
index 40ed21a..b03eb7a 100644
--- a/output_foundry.go
+++ b/output_foundry.go
@@ -115,7 +115,7 @@ type FoundryOutput struct {
 	// The token scheme this foundry uses.
 	TokenScheme TokenScheme `serix:""`
 	// The unlock conditions on this output.
-	UnlockConditions FoundryOutputUnlockConditions `serix:",omitempty"`
+	UnlockConditions FoundryOutputUnlockConditions `serix:""`
 	// The feature on the output.
 	Features FoundryOutputFeatures `serix:",omitempty"`
 	// The immutable feature on the output.
diff --git a/output_nft.go b/output_nft.go
index fe508b7..b87e257 100644
--- a/output_nft.go
+++ b/output_nft.go
@@ -91,7 +91,7 @@ type NFTOutput struct {
 	// The identifier of this NFT.
 	NFTID NFTID `serix:""`
 	// The unlock conditions on this output.
-	UnlockConditions NFTOutputUnlockConditions `serix:",omitempty"`
+	UnlockConditions NFTOutputUnlockConditions `serix:""`
 	// The feature on the output.
 	Features NFTOutputFeatures `serix:",omitempty"`
 	// The immutable feature on the output.
-- 
2.43.0


From 671ddc8205ae10af4b85acc8a2452449f2d8ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 11/36] fix: list the protocol versions under the provider's
 lock

---
 api_epoch_based_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api_epoch_based_provider.go b/api_epoch_based_provider.go
index 356f7ba..892ec7f 100644
--- a/api_epoch_based_provider.go
+++ b/api_epoch_based_provider.go
@@ -217,6 +217,9 @@ func (e *EpochBasedProvider) ProtocolParametersHash(version Version) Identifier
 }
 
 func (e *EpochBasedProvider) ProtocolEpochVersions() []ProtocolEpochVersion {
+	e.mutex.RLock()
+	defer e.mutex.RUnlock()
+
 	return e.protocolVersions.Slice()
 }
 
-- 
2.43.0


From 3f8d8b6177b8a60c9bde8f6825f6506b03f96a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 12/36] fix: report an unsatisfiable proof-of-work target
 instead of a cancellation

---
 blockissuer/pow/worker.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blockissuer/pow/worker.go b/blockissuer/pow/worker.go
index a2af40a..08ce85c 100644
--- a/blockissuer/pow/worker.go
+++ b/blockissuer/pow/worker.go
@@ -42,6 +42,10 @@ func New(numWorkers ...int) *Worker {
 // It returns a nonce that appended to data results in at least targetTrailingZeros.
 // The computation can be canceled anytime using ctx.
 func (w *Worker) Mine(ctx context.Context, data []byte, targetTrailingZeros int) (uint64, error) {
+	if targetTrailingZeros > MaxTrailingZeros {
+		return 0, ErrInvalidTargetTrailingZeroes
+	}
+
 	var (
 		done    uint32
 		wg      sync.WaitGroup
@@ -92,10 +96,6 @@ func (w *Worker) Mine(ctx context.Context, data []byte, targetTrailingZeros int)
 }
 
 func (w *Worker) worker(powDigest []byte, startNonce uint64, targetTrailingZeros int, done *uint32) (uint64, error) {
-	if targetTrailingZeros > MaxTrailingZeros {
-		return 0, ErrInvalidTargetTrailingZeroes
-	}
-
 	for nonce := startNonce; atomic.LoadUint32(done) == 0; nonce++ {
 		if trailingZeros := TrailingZeros(powDigest, nonce); trailingZeros >= targetTrailingZeros {
 			return nonce, nil
-- 
2.43.0


From 3c625dc44b1b1bc4b4f35e8eacff331956dfd389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 13/36] fix: report an error if a response without content
 should have a result

---
 nodeclient/http.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nodeclient/http.go b/nodeclient/http.go
index 48bf16e..53987f9 100644
--- a/nodeclient/http.go
+++ b/nodeclient/http.go
@@ -57,6 +57,11 @@ func interpretBody(ctx context.Context, serixAPI *serix.API, res *http.Response,
 	defer res.Body.Close()
 
 	if res.StatusCode == http.StatusNoContent {
+		if decodeTo != nil {
+			// there is nothing the expected result could be taken from
+			return ierrors.WithMessagef(ErrHTTPUnknownError, "url %s, error message: the response has no content", res.Request.URL.String())
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From e670e6c6c984d83c355b6e46a6cd1e6658a0260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 14/36] fix: refuse nodes without protocol parameters or with
 an unsupported protocol version instead of panicking

---
 nodeclient/http_api_client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nodeclient/http_api_client.go b/nodeclient/http_api_client.go
index 262e74d..bcd5925 100644
--- a/nodeclient/http_api_client.go
+++ b/nodeclient/http_api_client.go
@@ -109,7 +109,13 @@ func New(baseURL string, opts ...ClientOption) (*Client, error) {
 	if err != nil {
 		return nil, ierrors.Wrap(err, "unable to call info endpoint for protocol parameter init")
 	}
+	if len(info.ProtocolParameters) == 0 {
+		return nil, ierrors.New("the node does not provide any protocol parameters")
+	}
 	for _, params := range info.ProtocolParameters {
+		if params.Parameters.Version() != iotago.LatestProtocolVersion() {
+			return nil, ierrors.Errorf("unsupported protocol version %d", params.Parameters.Version())
+		}
 		client.apiProvider.AddProtocolParametersAtEpoch(params.Parameters, params.StartEpoch)
 	}
 
-- 
2.43.0


From 80d249ed04e63005c1ee216c8b5c217095986423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 15/36] fix: report invalid output IDs and unexpected output
 types from the indexer instead of panicking

---
 nodeclient/indexer_client.go | 55 ++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/nodeclient/indexer_client.go b/nodeclient/indexer_client.go
index 7f86996..1f7b999 100644
--- a/nodeclient/indexer_client.go
+++ b/nodeclient/indexer_client.go
@@ -14,6 +14,8 @@ var (
 	// ErrIndexerNotFound gets returned when the indexer doesn't find any result.
 	// Only applicable to single element queries.
 	ErrIndexerNotFound = ierrors.New("no result found")
+	// ErrIndexerUnexpectedOutputType gets returned when the indexer returns an output of another type than the one queried for.
+	ErrIndexerUnexpectedOutputType = ierrors.New("unexpected output type")
 )
 
 type (
@@ -81,7 +83,11 @@ func (resultSet *IndexerResultSet) Next() bool {
 
 // Outputs collects/fetches the outputs result from the query.
 func (resultSet *IndexerResultSet) Outputs(ctx context.Context) (iotago.Outputs[iotago.Output], error) {
-	outputIDs := resultSet.Response.Items.MustOutputIDs()
+	outputIDs, err := resultSet.Response.Items.OutputIDs()
+	if err != nil {
+		return nil, ierrors.Wrap(err, "invalid output ID in the indexer response")
+	}
+
 	outputs := make(iotago.Outputs[iotago.Output], len(outputIDs))
 	for i, outputID := range outputIDs {
 		output, err := resultSet.client.OutputByID(ctx, outputID)
@@ -163,7 +169,12 @@ func (client *indexerClient) singleOutputQuery(ctx context.Context, route string
 		return nil, nil, res.CommittedSlot, ierrors.WithMessagef(ErrIndexerNotFound, "route %s", route)
 	}
 
-	outputID := res.Items.MustOutputIDs()[0]
+	outputIDs, err := res.Items.OutputIDs()
+	if err != nil {
+		return nil, nil, res.CommittedSlot, ierrors.Wrap(err, "invalid output ID in the indexer response")
+	}
+
+	outputID := outputIDs[0]
 	output, err := client.core.OutputByID(ctx, outputID)
 	if err != nil {
 		return nil, nil, res.CommittedSlot, err
@@ -178,8 +189,12 @@ func (client *indexerClient) Account(ctx context.Context, accountAddress *iotago
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an AccountOutput
-	return outputID, output.(*iotago.AccountOutput), ledgerIndex, nil
+	typedOutput, ok := output.(*iotago.AccountOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.WithMessagef(ErrIndexerUnexpectedOutputType, "output %s is of type %s", outputID.ToHex(), output.Type())
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Anchor(ctx context.Context, anchorAddress *iotago.AnchorAddress) (*iotago.OutputID, *iotago.AnchorOutput, iotago.SlotIndex, error) {
@@ -188,8 +203,12 @@ func (client *indexerClient) Anchor(ctx context.Context, anchorAddress *iotago.A
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an AnchorOutput
-	return outputID, output.(*iotago.AnchorOutput), ledgerIndex, nil
+	typedOutput, ok := output.(*iotago.AnchorOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.WithMessagef(ErrIndexerUnexpectedOutputType, "output %s is of type %s", outputID.ToHex(), output.Type())
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Foundry(ctx context.Context, foundryID iotago.FoundryID) (*iotago.OutputID, *iotago.FoundryOutput, iotago.SlotIndex, error) {
@@ -198,8 +217,12 @@ func (client *indexerClient) Foundry(ctx context.Context, foundryID iotago.Found
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an FoundryOutput
-	return outputID, output.(*iotago.FoundryOutput), ledgerIndex, nil
+	typedOutput, ok := output.(*iotago.FoundryOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.WithMessagef(ErrIndexerUnexpectedOutputType, "output %s is of type %s", outputID.ToHex(), output.Type())
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) NFT(ctx context.Context, nftAddress *iotago.NFTAddress) (*iotago.OutputID, *iotago.NFTOutput, iotago.SlotIndex, error) {
@@ -208,8 +231,12 @@ func (client *indexerClient) NFT(ctx context.Context, nftAddress *iotago.NFTAddr
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an NFTOutput
-	return outputID, output.(*iotago.NFTOutput), ledgerIndex, nil
+	typedOutput, ok := output.(*iotago.NFTOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.WithMessagef(ErrIndexerUnexpectedOutputType, "output %s is of type %s", outputID.ToHex(), output.Type())
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Delegation(ctx context.Context, delegationID iotago.DelegationID) (*iotago.OutputID, *iotago.DelegationOutput, iotago.SlotIndex, error) {
@@ -218,6 +245,10 @@ func (client *indexerClient) Delegation(ctx context.Context, delegationID iotago
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is a DelegationOutput
-	return outputID, output.(*iotago.DelegationOutput), ledgerIndex, nil
+	typedOutput, ok := output.(*iotago.DelegationOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.WithMessagef(ErrIndexerUnexpectedOutputType, "output %s is of type %s", outputID.ToHex(), output.Type())
+	}
+
+	return outputID, typedOutput, ledgerIndex, nil
 }
-- 
2.43.0


From 31fed091cc5d307c457505be1b621cbdb9baf132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 16/36] fix: report protocol parameters no API can be created
 from as an error instead of panicking

---
 nodeclient/http_api_client.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/nodeclient/http_api_client.go b/nodeclient/http_api_client.go
index bcd5925..f1996c8 100644
--- a/nodeclient/http_api_client.go
+++ b/nodeclient/http_api_client.go
@@ -109,17 +109,34 @@ func New(baseURL string, opts ...ClientOption) (*Client, error) {
 	if err != nil {
 		return nil, ierrors.Wrap(err, "unable to call info endpoint for protocol parameter init")
 	}
+	if err := client.initProtocolParameters(info); err != nil {
+		return nil, err
+	}
+
+	return client, nil
+}
+
+// initProtocolParameters takes over the protocol parameters of the node.
+func (client *Client) initProtocolParameters(info *api.InfoResponse) (err error) {
+	// the creation of an API panics if the parameters do not make sense, which must not bring down the user of the client
+	defer func() {
+		if r := recover(); r != nil {
+			err = ierrors.Errorf("invalid protocol parameters: %v", r)
+		}
+	}()
+
 	if len(info.ProtocolParameters) == 0 {
-		return nil, ierrors.New("the node does not provide any protocol parameters")
+		return ierrors.New("the node does not provide any protocol parameters")
 	}
+
 	for _, params := range info.ProtocolParameters {
 		if params.Parameters.Version() != iotago.LatestProtocolVersion() {
-			return nil, ierrors.Errorf("unsupported protocol version %d", params.Parameters.Version())
+			return ierrors.Errorf("unsupported protocol version %d", params.Parameters.Version())
 		}
 		client.apiProvider.AddProtocolParametersAtEpoch(params.Parameters, params.StartEpoch)
 	}
 
-	return client, nil
+	return nil
 }
 
 // Client is a client for node HTTP REST API endpoints.
-- 
2.43.0


From b99091e5b5dd32e5746222bfcfccc755523bdaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 17/36] fix: MultiAddress.Clone panics for every multi address

The slice of the copy was made with a capacity instead of a length, so that
writing its elements panicked. Cloning any output, transaction or builder
that refers to a multi address failed.
---
 address_multi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address_multi.go b/address_multi.go
index 9a9a3d1..deb8ea3 100644
--- a/address_multi.go
+++ b/address_multi.go
@@ -61,7 +61,7 @@ type MultiAddress struct {
 
 func (addr *MultiAddress) Clone() Address {
 	cpy := &MultiAddress{
-		Addresses: make(AddressesWithWeight, 0, len(addr.Addresses)),
+		Addresses: make(AddressesWithWeight, len(addr.Addresses)),
 		Threshold: addr.Threshold,
 	}
 
-- 
2.43.0


From 08113da41d97a287056118d8222982fadfce4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 18/36] fix: account builder transitions lose a newly created
 feature

BlockIssuerTransition and StakingTransition are documented to create and set
the feature if it does not exist. They created it but never added it to the
output, so that everything set through the transition was silently dropped.
---
 builder/output_builder_account.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/output_builder_account.go b/builder/output_builder_account.go
index 37a659e..fdb9b1c 100644
--- a/builder/output_builder_account.go
+++ b/builder/output_builder_account.go
@@ -169,6 +169,7 @@ func (builder *AccountOutputBuilder) BlockIssuerTransition() *BlockIssuerTransit
 			BlockIssuerKeys: iotago.NewBlockIssuerKeys(),
 			ExpirySlot:      0,
 		}
+		builder.output.Features.Upsert(blockIssuerFeature)
 	}
 
 	return &BlockIssuerTransition{
@@ -188,6 +189,7 @@ func (builder *AccountOutputBuilder) StakingTransition() *StakingTransition {
 			StartEpoch:   0,
 			EndEpoch:     0,
 		}
+		builder.output.Features.Upsert(stakingFeature)
 	}
 
 	return &StakingTransition{
-- 
2.43.0


From bc790151b30a8b3024e493bbaa1fc8769d0d0a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 19/36] fix: builder moves mana off implicit and newly created
 accounts

The mana of an implicit account was treated as unbound, and the mana of an
account output whose ID is still empty was bound to (and allotted to) the
empty account ID. Transactions that store or allot the remaining mana were
then refused by the VM or gave the mana to a nonexistent account.
---
 builder/transaction_builder.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 1584b8e..1dabe86 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -604,13 +604,13 @@ func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.Slot
 			return nil, err
 		}
 
-		if accountOutput, isAccountOutput := input.(*iotago.AccountOutput); isAccountOutput {
+		if accountID, isAccount := accountIDFromInput(inputID, input); isAccount {
 			inputTotalMana, err := safemath.SafeAdd(inputPotentialMana, inputStoredMana)
 			if err != nil {
 				return nil, ierrors.Wrap(err, "failed to add input mana")
 			}
 
-			if err := result.AddAccountBoundMana(accountOutput.AccountID, inputTotalMana); err != nil {
+			if err := result.AddAccountBoundMana(accountID, inputTotalMana); err != nil {
 				return nil, err
 			}
 		} else {
@@ -632,6 +632,28 @@ func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.Slot
 	return result, nil
 }
 
+// accountIDFromInput returns the ID of the account the mana of the given input is bound to,
+// which is the case for account outputs and for implicit accounts.
+// The ID is derived from the output ID as long as it is not set on the output itself.
+func accountIDFromInput(inputID iotago.OutputID, input iotago.Output) (iotago.AccountID, bool) {
+	switch output := input.(type) {
+	case *iotago.AccountOutput:
+		if output.AccountID.Empty() {
+			return iotago.AccountIDFromOutputID(inputID), true
+		}
+
+		return output.AccountID, true
+
+	case *iotago.BasicOutput:
+		// a basic output on an implicit account creation address is an implicit account
+		if unlockAddress := output.UnlockConditionSet().Address(); unlockAddress != nil && unlockAddress.Address.Type() == iotago.AddressImplicitAccountCreation {
+			return iotago.AccountIDFromOutputID(inputID), true
+		}
+	}
+
+	return iotago.EmptyAccountID, false
+}
+
 // MinRequiredAllottedMana returns the minimum allotted mana required to issue a Block
 // with the transaction payload from the builder and 1 allotment for the block issuer.
 func (b *TransactionBuilder) MinRequiredAllottedMana(rmc iotago.Mana, blockIssuerAccountID iotago.AccountID) (iotago.Mana, error) {
-- 
2.43.0


From fabe6bf16f3ecc3d2482f85cac48ed6583425add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 20/36] fix: builder can not unlock outputs owned by a chain
 that was just created

The address of an account, anchor or NFT output whose ID is still empty was
derived from the empty ID, so that inputs owned by it were refused.
---
 builder/transaction_builder.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 1dabe86..7f2b4d8 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -754,7 +754,7 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 			// always mark the chain as unlocked in case the output is a chain output.
 			// e.g. "an NFT owns an NFT".
-			unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIndex)
+			unlockedSet.addChainAsUnlocked(inputIDs[inputIndex], inputs[inputIndex], inputIndex)
 
 			// skip the rest of the input processing because we don't need to sign chain inputs
 			continue
@@ -799,7 +799,7 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 		// always mark the chain as unlocked in case the output is a chain output
 		// e.g. "an NFT owned by an ed25519 address".
-		unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIndex)
+		unlockedSet.addChainAsUnlocked(inputIDs[inputIndex], inputs[inputIndex], inputIndex)
 	}
 
 	sigTxPayload := &iotago.SignedTransaction{
@@ -848,9 +848,14 @@ func (u *txBuilderUnlockedSet) addSignerUID(signerUID iotago.Identifier, unlocke
 // addChainAsUnlocked marks the underlying chain address as unlocked at "unlockedAtIndex".
 // This is only done if the output is a chain output and the chain ID is addressable,
 // which is only valid for AccountOutput, AnchorOutput and NFTOutput.
-func (u *txBuilderUnlockedSet) addChainAsUnlocked(input iotago.Output, unlockedAtIndex int) {
+// The chain ID of an output that just created its chain is derived from the given input ID.
+func (u *txBuilderUnlockedSet) addChainAsUnlocked(inputID iotago.OutputID, input iotago.Output, unlockedAtIndex int) {
 	if chainInput, is := input.(iotago.ChainOutput); is && chainInput.ChainID().Addressable() {
-		u.unlockedChains[chainInput.ChainID().ToAddress().Key()] = unlockedAtIndex
+		chainID := chainInput.ChainID()
+		if utxoIDChainID, is := chainID.(iotago.UTXOIDChainID); is && chainID.Empty() {
+			chainID = utxoIDChainID.FromOutputID(inputID)
+		}
+		u.unlockedChains[chainID.ToAddress().Key()] = unlockedAtIndex
 	}
 }
 
-- 
2.43.0


From 04f81453d13e428fd906dd2c6e84a610b35533ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 21/36] fix: cloned block issuer feature shares its keys with
 the original

---
 feat_blockissuer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feat_blockissuer.go b/feat_blockissuer.go
index 400d315..ad0f898 100644
--- a/feat_blockissuer.go
+++ b/feat_blockissuer.go
@@ -40,7 +40,7 @@ type BlockIssuerFeature struct {
 func (s *BlockIssuerFeature) Clone() Feature {
 	return &BlockIssuerFeature{
 		ExpirySlot:      s.ExpirySlot,
-		BlockIssuerKeys: s.BlockIssuerKeys,
+		BlockIssuerKeys: s.BlockIssuerKeys.Clone(),
 	}
 }
 
-- 
2.43.0


From 5fb52afc4042523ddf4f839b85f38f853bdd4770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 22/36] fix: calculate the slot of times more than 292 years
 after genesis correctly

---
 timeprovider.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/timeprovider.go b/timeprovider.go
index f460b48..53a390b 100644
--- a/timeprovider.go
+++ b/timeprovider.go
@@ -91,12 +91,14 @@ func (t *TimeProvider) SlotsPerEpochExponent() uint8 {
 // Note: The + 1 is required because slots are counted starting from 1 with 0 being reserved for times before the genesis,
 // which has to be addressable as its own slot.
 func (t *TimeProvider) SlotFromTime(targetTime time.Time) SlotIndex {
-	elapsed := targetTime.Sub(t.genesisTime)
-	if elapsed < 0 {
+	if targetTime.Before(t.genesisTime) {
 		return t.genesisSlot
 	}
 
-	return t.genesisSlot + SlotIndex(int64(elapsed/time.Second)/t.slotDurationSeconds) + 1
+	// The elapsed time is not calculated as time.Duration, because that can not represent more than 292 years.
+	elapsedSeconds := targetTime.Unix() - t.genesisUnixTime
+
+	return t.genesisSlot + SlotIndex(elapsedSeconds/t.slotDurationSeconds) + 1
 }
 
 // CurrentSlot calculates the current slot based on the current time.
-- 
2.43.0


From 41b3174dfe6827affbd024ad344603d0bf15c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:35 +0000
Subject: [PATCH 23/36] fix: map times past the last slot to the last slot
 instead of wrapping around

---
 timeprovider.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/timeprovider.go b/timeprovider.go
index 53a390b..7ff127f 100644
--- a/timeprovider.go
+++ b/timeprovider.go
@@ -97,8 +97,14 @@ func (t *TimeProvider) SlotFromTime(targetTime time.Time) SlotIndex {
 
 	// The elapsed time is not calculated as time.Duration, because that can not represent more than 292 years.
 	elapsedSeconds := targetTime.Unix() - t.genesisUnixTime
+	elapsedSlots := elapsedSeconds / t.slotDurationSeconds
 
-	return t.genesisSlot + SlotIndex(elapsedSeconds/t.slotDurationSeconds) + 1
+	// Times past the last slot must not wrap around to the first slots.
+	if elapsedSlots >= int64(MaxSlotIndex-t.genesisSlot) {
+		return MaxSlotIndex
+	}
+
+	return t.genesisSlot + SlotIndex(elapsedSlots) + 1
 }
 
 // CurrentSlot calculates the current slot based on the current time.
-- 
2.43.0


From 1de541ef4364ca152a83b975d01f50180fcc22c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 24/36] fix: cloned delegation output shares its validator
 address with the original

---
 output_delegation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/output_delegation.go b/output_delegation.go
index ec92da9..007a4ed 100644
--- a/output_delegation.go
+++ b/output_delegation.go
@@ -112,11 +112,17 @@ type DelegationOutput struct {
 }
 
 func (d *DelegationOutput) Clone() Output {
+	var validatorAddress *AccountAddress
+	if d.ValidatorAddress != nil {
+		//nolint:forcetypeassert // we can safely assume that this is an AccountAddress
+		validatorAddress = d.ValidatorAddress.Clone().(*AccountAddress)
+	}
+
 	return &DelegationOutput{
 		Amount:           d.Amount,
 		DelegatedAmount:  d.DelegatedAmount,
 		DelegationID:     d.DelegationID,
-		ValidatorAddress: d.ValidatorAddress,
+		ValidatorAddress: validatorAddress,
 		StartEpoch:       d.StartEpoch,
 		EndEpoch:         d.EndEpoch,
 		UnlockConditions: d.UnlockConditions.Clone(),
-- 
2.43.0


From 3fdad5d8a5492ec59d04f12d3c4f0c602eb5da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 25/36] fix: do not write the caches of protocol parameters
 while an API that uses them encodes them

---
 api_v3.go                     | 5 +++++
 api_v3_protocol_parameters.go | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/api_v3.go b/api_v3.go
index 6d4ee3e..aca3f41 100644
--- a/api_v3.go
+++ b/api_v3.go
@@ -232,6 +232,11 @@ func V3API(protoParams ProtocolParameters) API {
 	maxBlockWork, err := protoParams.WorkScoreParameters().MaxBlockWork()
 	must(err)
 
+	// fill the caches of the protocol parameters, which must not change anymore once the API is shared
+	protoParams.NetworkID()
+	//nolint:errcheck // parameters that can not be encoded have no hash to cache
+	protoParams.Hash()
+
 	//nolint:forcetypeassert // we can safely assume that these are V3ProtocolParameters
 	v3 := &v3api{
 		serixAPI:              api,
diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 3551acb..a81b459 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -154,7 +154,8 @@ func (p *V3ProtocolParameters) Bytes() ([]byte, error) {
 		return p.bytes, nil
 	}
 
-	bytes, err := CommonSerixAPI().Encode(context.TODO(), p)
+	// the encoder copies what it encodes, so encode a value without the caches that are concurrently written
+	bytes, err := CommonSerixAPI().Encode(context.TODO(), &V3ProtocolParameters{basicProtocolParameters: p.basicProtocolParameters})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 86469768771f90d0739a73bc598fcd48c87eeef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 26/36] fix: validating a block does not write into the memory
 behind its strong parents

---
 block.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/block.go b/block.go
index 8bc5c48..a0802bc 100644
--- a/block.go
+++ b/block.go
@@ -305,7 +305,8 @@ func (b *Block) syntacticallyValidate() error {
 	block := b.Body
 	if len(block.WeakParentIDs()) > 0 {
 		// weak parents must be disjunct to the rest of the parents
-		nonWeakParents := lo.KeyOnlyBy(append(block.StrongParentIDs(), block.ShallowLikeParentIDs()...), func(v BlockID) BlockID {
+		// the parents are copied because appending to them could write into the memory of a block that is used concurrently
+		nonWeakParents := lo.KeyOnlyBy(append(append(BlockIDs{}, block.StrongParentIDs()...), block.ShallowLikeParentIDs()...), func(v BlockID) BlockID {
 			return v
 		})
 
-- 
2.43.0


From e4cf34b7c7ac00371bab6e21886d7f5daeed14a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 27/36] fix: reading an identifier from longer bytes reports
 only the bytes of the identifier as consumed

---
 gen/identifier.tmpl       | 2 +-
 identifier.gen.go         | 2 +-
 identifier_account.gen.go | 2 +-
 identifier_anchor.gen.go  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 114670f..032bb83 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -69,7 +69,7 @@ func {{.Name}}FromBytes(bytes []byte) ({{.Name}}, int, error) {
 	}
 	copy({{.Receiver}}[:], bytes)
 
-	return {{.Receiver}}, len(bytes), nil
+	return {{.Receiver}}, {{.Name}}Length, nil
 }
 
 func ({{.Receiver}} {{.Name}}) Bytes() ([]byte, error) {
diff --git a/identifier.gen.go b/identifier.gen.go
index 9039988..1b75a01 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -69,7 +69,7 @@ func IdentifierFromBytes(bytes []byte) (Identifier, int, error) {
 	}
 	copy(i[:], bytes)
 
-	return i, len(bytes), nil
+	return i, IdentifierLength, nil
 }
 
 func (i Identifier) Bytes() ([]byte, error) {
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index 155f55d..0a6a783 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -69,7 +69,7 @@ func AccountIDFromBytes(bytes []byte) (AccountID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AccountIDLength, nil
 }
 
 func (a AccountID) Bytes() ([]byte, error) {
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 32f009d..3a56d75 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -69,7 +69,7 @@ func AnchorIDFromBytes(bytes []byte) (AnchorID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AnchorIDLength, nil
 }
 
 func (a AnchorID) Bytes() ([]byte, error) {
-- 
2.43.0


From c429784cea1c43372cd24665508a2a966bf0f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 28/36] fix: reading an identifier from text of another length
 fails instead of panicking or leaving a part of it

---
 block_id.gen.go              | 4 ++++
 commitment_id.gen.go         | 4 ++++
 gen/identifier.tmpl          | 4 ++++
 gen/slot_identifier.tmpl     | 4 ++++
 identifier.gen.go            | 4 ++++
 identifier_account.gen.go    | 4 ++++
 identifier_anchor.gen.go     | 4 ++++
 output_id.gen.go             | 4 ++++
 signed_transaction_id.gen.go | 4 ++++
 transaction_id.gen.go        | 4 ++++
 10 files changed, 40 insertions(+)

diff --git a/block_id.gen.go b/block_id.gen.go
index e98d820..c9ec646 100644
--- a/block_id.gen.go
+++ b/block_id.gen.go
@@ -92,6 +92,10 @@ func (b BlockID) MarshalText() (text []byte, err error) {
 }
 
 func (b *BlockID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(BlockIDLength) {
+		return ierrors.Errorf("invalid BlockID length: expected %d characters, got %d characters", hex.EncodedLen(BlockIDLength), len(text))
+	}
+
 	_, err := hex.Decode(b[:], text)
 
 	return err
diff --git a/commitment_id.gen.go b/commitment_id.gen.go
index 1ea2a0f..5832c6f 100644
--- a/commitment_id.gen.go
+++ b/commitment_id.gen.go
@@ -92,6 +92,10 @@ func (c CommitmentID) MarshalText() (text []byte, err error) {
 }
 
 func (c *CommitmentID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(CommitmentIDLength) {
+		return ierrors.Errorf("invalid CommitmentID length: expected %d characters, got %d characters", hex.EncodedLen(CommitmentIDLength), len(text))
+	}
+
 	_, err := hex.Decode(c[:], text)
 
 	return err
diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 032bb83..480690a 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -84,6 +84,10 @@ func ({{.Receiver}} {{.Name}}) MarshalText() (text []byte, err error) {
 }
 
 func ({{.Receiver}} *{{.Name}}) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen({{.Name}}Length) {
+		return ierrors.Errorf("invalid {{.Name}} length: expected %d characters, got %d characters", hex.EncodedLen({{.Name}}Length), len(text))
+	}
+
 	_, err := hex.Decode({{.Receiver}}[:], text)
 
 	return err
diff --git a/gen/slot_identifier.tmpl b/gen/slot_identifier.tmpl
index 4ee3a39..96adfdf 100644
--- a/gen/slot_identifier.tmpl
+++ b/gen/slot_identifier.tmpl
@@ -108,6 +108,10 @@ func ({{.Receiver}} {{.Name}}) MarshalText() (text []byte, err error) {
 }
 
 func ({{.Receiver}} *{{.Name}}) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen({{.Name}}Length) {
+		return ierrors.Errorf("invalid {{.Name}} length: expected %d characters, got %d characters", hex.EncodedLen({{.Name}}Length), len(text))
+	}
+
 	_, err := hex.Decode({{.Receiver}}[:], text)
 
 	return err
diff --git a/identifier.gen.go b/identifier.gen.go
index 1b75a01..978effb 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -84,6 +84,10 @@ func (i Identifier) MarshalText() (text []byte, err error) {
 }
 
 func (i *Identifier) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(IdentifierLength) {
+		return ierrors.Errorf("invalid Identifier length: expected %d characters, got %d characters", hex.EncodedLen(IdentifierLength), len(text))
+	}
+
 	_, err := hex.Decode(i[:], text)
 
 	return err
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index 0a6a783..4f01550 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -84,6 +84,10 @@ func (a AccountID) MarshalText() (text []byte, err error) {
 }
 
 func (a *AccountID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(AccountIDLength) {
+		return ierrors.Errorf("invalid AccountID length: expected %d characters, got %d characters", hex.EncodedLen(AccountIDLength), len(text))
+	}
+
 	_, err := hex.Decode(a[:], text)
 
 	return err
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 3a56d75..18208d9 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -84,6 +84,10 @@ func (a AnchorID) MarshalText() (text []byte, err error) {
 }
 
 func (a *AnchorID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(AnchorIDLength) {
+		return ierrors.Errorf("invalid AnchorID length: expected %d characters, got %d characters", hex.EncodedLen(AnchorIDLength), len(text))
+	}
+
 	_, err := hex.Decode(a[:], text)
 
 	return err
diff --git a/output_id.gen.go b/output_id.gen.go
index 77af5e6..6fd3df9 100644
--- a/output_id.gen.go
+++ b/output_id.gen.go
@@ -82,6 +82,10 @@ func (o OutputID) MarshalText() (text []byte, err error) {
 }
 
 func (o *OutputID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(OutputIDLength) {
+		return ierrors.Errorf("invalid OutputID length: expected %d characters, got %d characters", hex.EncodedLen(OutputIDLength), len(text))
+	}
+
 	_, err := hex.Decode(o[:], text)
 
 	return err
diff --git a/signed_transaction_id.gen.go b/signed_transaction_id.gen.go
index 8ecf09f..13bfe39 100644
--- a/signed_transaction_id.gen.go
+++ b/signed_transaction_id.gen.go
@@ -92,6 +92,10 @@ func (t SignedTransactionID) MarshalText() (text []byte, err error) {
 }
 
 func (t *SignedTransactionID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(SignedTransactionIDLength) {
+		return ierrors.Errorf("invalid SignedTransactionID length: expected %d characters, got %d characters", hex.EncodedLen(SignedTransactionIDLength), len(text))
+	}
+
 	_, err := hex.Decode(t[:], text)
 
 	return err
diff --git a/transaction_id.gen.go b/transaction_id.gen.go
index 85b702b..89a470b 100644
--- a/transaction_id.gen.go
+++ b/transaction_id.gen.go
@@ -92,6 +92,10 @@ func (t TransactionID) MarshalText() (text []byte, err error) {
 }
 
 func (t *TransactionID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(TransactionIDLength) {
+		return ierrors.Errorf("invalid TransactionID length: expected %d characters, got %d characters", hex.EncodedLen(TransactionIDLength), len(text))
+	}
+
 	_, err := hex.Decode(t[:], text)
 
 	return err
-- 
2.43.0


From 8d211c049b2fad970a12bc0b0333df379fad1d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 29/36] fix: refuse trailing bytes after multi addresses in
 bech32 strings

---
 address.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/address.go b/address.go
index 49e8c3f..34afd61 100644
--- a/address.go
+++ b/address.go
@@ -221,11 +221,15 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 	//nolint:exhaustive
 	switch addrType {
 	case AddressMulti:
-		multiAddrRef, _, err := MultiAddressReferenceFromBytes(addrData)
+		multiAddrRef, consumed, err := MultiAddressReferenceFromBytes(addrData)
 		if err != nil {
 			return "", nil, ierrors.Wrap(err, "invalid multi address")
 		}
 
+		if consumed != len(addrData) {
+			return "", nil, serializer.ErrDeserializationNotAllConsumed
+		}
+
 		return NetworkPrefix(hrp), multiAddrRef, nil
 
 	case AddressRestricted:
@@ -240,11 +244,15 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 			}
 
 			// get the address capabilities from the remaining bytes
-			capabilities, _, err := AddressCapabilitiesBitMaskFromBytes(addrData[1+consumed:])
+			capabilities, capabilitiesConsumed, err := AddressCapabilitiesBitMaskFromBytes(addrData[1+consumed:])
 			if err != nil {
 				return "", nil, ierrors.Wrap(err, "invalid restricted address capabilities")
 			}
 
+			if 1+consumed+capabilitiesConsumed != len(addrData) {
+				return "", nil, serializer.ErrDeserializationNotAllConsumed
+			}
+
 			return NetworkPrefix(hrp), &RestrictedAddress{
 				Address:             multiAddrRef,
 				AllowedCapabilities: capabilities,
-- 
2.43.0


From b765ae2154ed4b53f55690dc6e8c0e81414e3a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 30/36] fix: refuse non US-ASCII characters in the data part of
 bech32 strings

---
 bech32/bech32.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bech32/bech32.go b/bech32/bech32.go
index c6faca6..5a5e6d0 100644
--- a/bech32/bech32.go
+++ b/bech32/bech32.go
@@ -3,6 +3,7 @@ package bech32
 
 import (
 	"strings"
+	"unicode"
 
 	"github.com/iotaledger/hive.go/ierrors"
 	"github.com/iotaledger/iota.go/v4/bech32/internal/base32"
@@ -87,6 +88,13 @@ func Decode(s string) (string, []byte, error) {
 		return "", nil, err
 	}
 
+	// validate characters in data part, because the conversion to lower maps some non US-ASCII characters to US-ASCII
+	for i, c := range s[hrpLen+1:] {
+		if c > unicode.MaxASCII {
+			return "", nil, &SyntaxError{ierrors.WithMessage(ErrInvalidCharacter, "non-charset character in data part"), hrpLen + 1 + i}
+		}
+	}
+
 	// convert everything to lower
 	s = strings.ToLower(s)
 	hrp := s[:hrpLen]
-- 
2.43.0


From 495f36b15c04b19f256f3d54f4c5849c9dc0206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 31/36] fix: return the mnemonic that restores the key manager

---
 wallet/keymanager.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/wallet/keymanager.go b/wallet/keymanager.go
index 856615c..9a62266 100644
--- a/wallet/keymanager.go
+++ b/wallet/keymanager.go
@@ -24,17 +24,30 @@ const (
 type KeyManager struct {
 	seed []byte
 	path bip32path.Path
+	// the mnemonic the seed was derived from, empty if the key manager was created from a seed.
+	mnemonic bip39.Mnemonic
 }
 
 // NewKeyManagerFromRandom creates a new key manager from random entropy.
 func NewKeyManagerFromRandom(path string) (*KeyManager, error) {
-	// Generate random entropy by using ed25519 key generation and using the private key seed (32 bytes)
-	_, random, err := ed25519.GenerateKey(nil)
+	var entropy []byte
+	// the bip39 package is not able to parse the mnemonics of entropy with leading zero bytes
+	for len(entropy) == 0 || entropy[0] == 0 {
+		// Generate random entropy by using ed25519 key generation and using the private key seed (32 bytes)
+		_, random, err := ed25519.GenerateKey(nil)
+		if err != nil {
+			return nil, ierrors.Wrap(err, "failed to generate random entropy")
+		}
+
+		entropy = random.Seed()
+	}
+
+	mnemonic, err := bip39.EntropyToMnemonic(entropy)
 	if err != nil {
-		return nil, ierrors.Wrap(err, "failed to generate random entropy")
+		return nil, ierrors.Wrap(err, "failed to convert random entropy to mnemonic")
 	}
 
-	return NewKeyManager(random.Seed(), path)
+	return NewKeyManagerFromMnemonic(mnemonic.String(), path)
 }
 
 // NewKeyManagerFromMnemonic creates a new key manager from a mnemonic.
@@ -49,7 +62,13 @@ func NewKeyManagerFromMnemonic(mnemonic string, path string) (*KeyManager, error
 		return nil, ierrors.Wrap(err, "failed to convert mnemonic to seed")
 	}
 
-	return NewKeyManager(seed, path)
+	keyManager, err := NewKeyManager(seed, path)
+	if err != nil {
+		return nil, err
+	}
+	keyManager.mnemonic = mnemonicSentence
+
+	return keyManager, nil
 }
 
 // NewKeyManager creates a new key manager.
@@ -100,6 +119,10 @@ func (k *KeyManager) Path(index ...uint32) bip32path.Path {
 
 // Mnemonic returns the mnemonic of the key manager.
 func (k *KeyManager) Mnemonic() bip39.Mnemonic {
+	if len(k.mnemonic) != 0 {
+		return lo.CopySlice(k.mnemonic)
+	}
+
 	mnemonic, err := bip39.EntropyToMnemonic(k.seed)
 	if err != nil {
 		panic(ierrors.Wrap(err, "failed to convert seed to mnemonic"))
-- 
2.43.0


From d9bc882fbe6e423c30b81fef6fb3b1dbea4153b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 32/36] fix: do not share the seed and path of the key manager
 with its users

---
 wallet/keymanager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wallet/keymanager.go b/wallet/keymanager.go
index 9a62266..cf61326 100644
--- a/wallet/keymanager.go
+++ b/wallet/keymanager.go
@@ -79,7 +79,7 @@ func NewKeyManager(seed []byte, path string) (*KeyManager, error) {
 	}
 
 	return &KeyManager{
-		seed: seed,
+		seed: lo.CopySlice(seed),
 		path: bip32Path,
 	}, nil
 }
@@ -99,8 +99,8 @@ func (k *KeyManager) KeyPair(index ...uint32) (ed25519.PrivateKey, ed25519.Publi
 
 func (k *KeyManager) Path(index ...uint32) bip32path.Path {
 	if len(index) == 0 {
-		// no additional index given, use the internal path
-		return k.path
+		// no additional index given, use a copy of the internal path
+		return lo.CopySlice(k.path)
 	}
 
 	// new index given, check if the internal path contains the index part
-- 
2.43.0


From c396dc17debbc5a912ce484db4ec4282aef3fa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 33/36] fix: sign for restricted addresses with the keys mapped
 to them

---
 address_signer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/address_signer.go b/address_signer.go
index 6dbcb7e..c328132 100644
--- a/address_signer.go
+++ b/address_signer.go
@@ -70,7 +70,12 @@ func NewInMemoryAddressSigner(addrKeys ...AddressKeys) AddressSigner {
 		addrKeys: map[string]interface{}{},
 	}
 	for _, c := range addrKeys {
-		ss.addrKeys[c.Address.Key()] = c.Keys
+		addr := c.Address
+		if restrictedAddr, is := addr.(*RestrictedAddress); is {
+			// the keys for restricted addresses are looked up by their underlying address
+			addr = restrictedAddr.Address
+		}
+		ss.addrKeys[addr.Key()] = c.Keys
 	}
 
 	return ss
-- 
2.43.0


From 919778fce38e451732197d6e60c809b4d3fd8015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 34/36] fix: compare congestion thresholds with the work of a
 slot without 32-bit overflow

---
 api_v3_protocol_parameters.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index a81b459..55c475a 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -368,11 +368,14 @@ func timeSanityCheck(protocolParams *V3ProtocolParameters) {
 }
 
 func congestionControlSanityCheck(protocolParams *V3ProtocolParameters) {
-	if protocolParams.CongestionControlParameters().IncreaseThreshold > WorkScore(protocolParams.SlotDurationInSeconds())*protocolParams.CongestionControlParameters().SchedulerRate {
+	// the product might need more than 32 bits
+	maxWorkPerSlot := uint64(protocolParams.SlotDurationInSeconds()) * uint64(protocolParams.CongestionControlParameters().SchedulerRate)
+
+	if uint64(protocolParams.CongestionControlParameters().IncreaseThreshold) > maxWorkPerSlot {
 		fmt.Printf("IncreaseThreshold: %d, SchedulerRate: %d, SlotDurationSeconds: %d\n", protocolParams.CongestionControlParameters().IncreaseThreshold, protocolParams.CongestionControlParameters().SchedulerRate, protocolParams.SlotDurationInSeconds())
 		panic("IncreaseThreshold must be less than or equal to SchedulerRate*SlotDurationInSeconds")
 	}
-	if protocolParams.CongestionControlParameters().DecreaseThreshold > WorkScore(protocolParams.SlotDurationInSeconds())*protocolParams.CongestionControlParameters().SchedulerRate {
+	if uint64(protocolParams.CongestionControlParameters().DecreaseThreshold) > maxWorkPerSlot {
 		panic("DecreaseThreshold must be less than or equal to SchedulerRate*SlotDurationInSeconds")
 	}
 	if protocolParams.CongestionControlParameters().DecreaseThreshold > protocolParams.CongestionControlParameters().IncreaseThreshold {
-- 
2.43.0


From 7eb94e030912680660c8df1718af5a9cb4c501ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:38 +0000
Subject: [PATCH 35/36] fix: refuse snapshot parameters whose sum of decay
 factors does not fit 32 bits

---
 api_v3_protocol_parameters.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 55c475a..b3f5a47 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -293,7 +293,12 @@ func deriveManaDecayFactorEpochsSum(annualDecayFactorPercentage uint8, slotsPerE
 	delta := math.Pow(2, float64(slotsPerEpochExponent)) * (1.0 / (365.0 * 24.0 * 60.0 * 60.0)) * float64(slotDurationSeconds)
 	annualDecayFactor := float64(annualDecayFactorPercentage) / 100.0
 
-	return uint32((math.Pow(annualDecayFactor, delta) / (1 - math.Pow(annualDecayFactor, delta)) * (math.Pow(2, float64(decayFactorEpochsSumExponent)))))
+	decayFactorEpochsSum := math.Pow(annualDecayFactor, delta) / (1 - math.Pow(annualDecayFactor, delta)) * (math.Pow(2, float64(decayFactorEpochsSumExponent)))
+	if !(decayFactorEpochsSum >= 0 && decayFactorEpochsSum <= math.MaxUint32) {
+		panic("decayFactorEpochsSum must not require more than 32 bits")
+	}
+
+	return uint32(decayFactorEpochsSum)
 }
 
 // deriveBootstrappingDuration computes the bootstrapping duration using floating point arithmetic.
-- 
2.43.0


From 3b2ea2f689c779095d8d1ae60e7dcfb47d8e6e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 36/36] fix: refuse snapshot parameters whose decay factors
 exponent exceeds 32 bits

---
 api_v3_protocol_parameters.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index b3f5a47..372230e 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -347,6 +347,10 @@ func manaSupplySanityCheck(protocolParams *V3ProtocolParameters) {
 	if maxManaSupply >= math.Pow(2.0, float64(protocolParams.ManaParameters().BitsCount)) {
 		panic("the combination of parameters might lead to overflowing of the Mana supply")
 	}
+	// the fixed point multiplications of the decay do not support more than 32 bits after the point
+	if protocolParams.ManaParameters().DecayFactorsExponent > 32 {
+		panic("decayFactorsExponent must be less than or equal to 32")
+	}
 	// this check is specific to the way decay is calculated to prevent overflow
 	if _, err := safemath.SafeMul(protocolParams.ManaParameters().DecayFactorEpochsSum, uint32(protocolParams.ManaParameters().GenerationRate)); err != nil {
 		panic("decayFactorEpochsSum * generationRate must not require more than 32 bits")
-- 
2.43.0

