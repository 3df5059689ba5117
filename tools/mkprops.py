import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":s,"meaning":s,"where":files[0]} for s in state]
    if observe:a["observe_at"]=observe
    if hook:a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
H=["histories","fault_sequences","inputs"]
p("L01","Base tokens are conserved by every accepted transaction",
 "Through any history of transactions accepted by block decoding, unlock validation and VM execution, the base tokens held by the unspent outputs always equal the genesis supply: inputs and outputs of every accepted transaction balance exactly. Storage deposit return conditions of consumed inputs are always fulfilled towards the return address by plain basic outputs (an address and nothing else), except when the return address itself unlocked that input. A transaction meeting these and all other rules is accepted.",
 H,"all transaction histories built by honest and byzantine clients over all output kinds, delivered over a lossy, reordering network to nodes that crash and restart, with clocks moving across timelock and expiration boundaries",
 "Tests validate single hand-written transactions; the supply invariant is about every sequence of transactions, including combined return conditions, expired inputs and several inputs owing to the same address.",
 ["vm/vm.go","vm/nova/vm.go","output.go","output_basic.go"],
 [("base token balance and return fulfilment","vm/vm.go:ExecFuncBalancedBaseTokens"),("simple transfer definition","output_basic.go:IsSimpleTransfer"),("sum bound","output.go:OutputsSyntacticalDepositAmount")],
 state=["UTXO set of a node"],observe=["VirtualMachine.ValidateUnlocks and Execute verdicts"])
p("L02","Mana is never created beyond generation, decay and rewards",
 "In every accepted transaction the stored mana of outputs plus allotments is at most the stored mana of the inputs decayed from their creation slot to the transaction's creation slot, plus potential mana generated by their base tokens above the minimum deposit (with the protocol's fixed-point generation and decay), plus claimed rewards; the amounts never overflow or exceed the protocol's mana bound. Inputs created after the transaction's creation slot are refused, and less mana out than in is only accepted with the mana burning capability.",
 H,"all histories of outputs created, held for arbitrary numbers of slots and epochs, split, merged and spent, at all slot-clock jumps and for randomised protocol parameters",
 "The mana formulas are sampled by tests at a handful of slot distances; the guarantee is about every path through time and every parameterisation, including epoch boundaries and long jumps.",
 ["mana_decay_provider.go","mana.go","vm/vm.go","vm/nova/vm.go","allotment.go"],
 [("decay and generation","mana_decay_provider.go:ManaDecayProvider"),("potential mana","mana.go:PotentialMana"),("totals","vm/vm.go:TotalManaIn, TotalManaOut"),("balance","vm/vm.go:ExecFuncBalancedMana")],
 state=["UTXO set, creation slots"],observe=["VM verdict","ManaDecayProvider results"])
p("L03","Native token supply is fixed by the foundry's minted minus melted counters",
 "Through any history, for every native token the amount in the ledger is at most the minted minus melted counter of its foundry, which never exceeds the maximum supply; it falls below only by transactions that carry the native token burning capability. Supply and counters change only in a transaction that transitions the controlling foundry (hence its account), by exactly the same delta, never both minted and melted, and counters never decrease. A foundry with tokens in circulation beyond what the destroying transaction melts can not be destroyed, and foundry serial numbers of an account are unique and strictly increasing with its foundry counter.",
 H,"all interleavings of minting, melting, burning, transferring and destroying over several foundries and accounts, including byzantine counter and amount values up to 256 bits",
 "Each rule has example tests; the supply identity holds only if all of them cooperate over a sequence of transactions and every mixed in/out constellation.",
 ["vm/vm.go","vm/nova/vm.go","token_scheme_simple.go","output_foundry.go","feat_native_token.go"],
 [("token balance","vm/vm.go:ExecFuncBalancedNativeTokens"),("supply state machine","token_scheme_simple.go:StateTransition"),("foundry STVF","vm/nova/vm.go:foundrySTVF"),("serials","vm/nova/vm.go:foundrySerialNumberValid, accountFoundryCounterSTVF")],
 state=["foundry outputs, native token features"],observe=["VM verdict"])
p("L04","Only the current owner can spend an output",
 "An output is consumed by an accepted transaction only if the address that owns it at that moment is unlocked: a valid Ed25519 signature over exactly this transaction by the address's key, a reference to an earlier input unlocked by that same signature or multi address, a chain unlock of an input that holds that account, NFT or state-transitioned anchor, or enough distinct weight of a multi address's members to reach its threshold; restricted addresses behave as the address they wrap. Signatures or unlocks copied from another transaction, attached to other inputs, referencing later, wrong or unsuitable inputs, duplicated, nested or reordered never unlock anything. Anchor outputs need the state controller for a state transition and the governor for governance transitions and destruction.",
 H,"all owner graphs (keys, multi addresses, chains owning chains, restricted wrappers, expired outputs) and all attacker rearrangements of signatures and unlocks, with messages duplicated, replayed and corrupted by the network",
 "Tests try a few dozen unlock arrangements; authorization must hold for every owner graph and every rearrangement an attacker can submit after observing other transactions.",
 ["vm/vm.go","unlock.go","unlock_multi.go","address_multi.go","address.go","signature_ed25519.go","output_anchor.go"],
 [("unlock validation","vm/vm.go:ValidateUnlocks, unlockAddress"),("multi unlock threshold","vm/vm.go:MultiUnlock"),("unlock structure","unlock.go:SignaturesUniqueAndReferenceUnlocksValidator"),("signature check","signature_ed25519.go:Valid")],
 observe=["VirtualMachine.ValidateUnlocks"])
p("L05","Timelocks and expirations follow the commitment-bounded slot clock",
 "An output with a timelock is spendable only when the commitment input's slot plus the min committable age has reached the timelock slot. An output with an expiration belongs to its owner while commitment slot plus max committable age is below the expiration slot, to the return address once commitment slot plus min committable age has reached it, and to nobody in between; without a commitment input such outputs are not spendable. The helper that reports who can unlock an output at a slot always agrees with what the VM accepts.",
 ["schedules","histories","inputs"],"all positions of the slot clock relative to lock slots, all committable ages, transactions prepared before and delivered after a boundary, clock skew and jumps between wallets and nodes",
 "Tests check a few slots with fixed ages; the safety window must hold at every boundary, for every parameterisation, and for transactions delayed across it.",
 ["vm/vm.go","unlock_cond.go","output_basic.go","output_nft.go","vm/nova/vm.go"],
 [("timelock","vm/vm.go:ExecFuncTimelocks"),("expiration owner","vm/vm.go:checkExpiration, unlock_cond.go:CheckExpirationCondition"),("wallet-side helper","unlock_cond.go:unlockableBy")],
 observe=["VM verdict","Output.UnlockableBy"])
p("L06","Chain outputs keep their identity and obey their state machine",
 "At every point of any history at most one unspent output exists per account, anchor, NFT, foundry and delegation ID; a new chain gets the ID derived from its output ID, an existing one is carried forward only by consuming its current output into an output of the same kind, and a destroyed ID never reappears. Immutable features (and issuer, metadata inside them) never change over the life of a chain. An anchor changes state (index plus one, controllers and metadata fixed) or governance (index, amount and state metadata fixed), never both at once.",
 H,"all lifecycles of chains: creation, long sequences of transitions, several chains per transaction, destruction, byzantine attempts at forging, duplicating, swapping and resurrecting IDs, over restarts of nodes",
 "Tests cover single transitions of one chain; uniqueness and permanence are history properties over many transactions and mixed chains.",
 ["vm/nova/vm.go","vm/vm.go","vm/types.go","output_account.go","output_anchor.go","output_nft.go","output.go"],
 [("chain transitions","vm/vm.go:ExecFuncChainTransitions"),("STVFs","vm/nova/vm.go:ChainSTVF"),("input chain set","vm/types.go:ChainInputSet"),("output chain uniqueness","output.go:OutputsSyntacticalChainConstrainedOutputUniqueness")],
 state=["chain outputs in the UTXO set"],observe=["VM verdict"])
p("L07","Block issuer accounts stay accountable: lock, expiry and mana lock",
 "An account with a block issuer feature (or an implicit account, which can only become a block issuer account and never be destroyed) transitions only with its block issuance credit supplied and non-negative, and its feature can be removed, or the account destroyed, only after the expiry slot is past the commitment input's slot. A new, extended or changed expiry slot is at least commitment slot plus max committable age. Mana held by such an account (stored and potential) leaves it in a transition only to itself, by allotment to itself, or into outputs owned by it and that are still timelocked two max committable ages past the commitment slot.",
 H,"all lifecycles of issuer and implicit accounts with negative and positive credits, expiry slots around the commitment window and all distributions of mana over outputs and allotments",
 "Tests fix one or two distributions per rule; the accountability guarantee is over every way an adversarial issuer can combine inputs, outputs, allotments and timing.",
 ["vm/nova/vm.go","feat_blockissuer.go","vm/vm.go","unlock_cond.go"],
 [("issuer STVF and mana lock","vm/nova/vm.go:accountBlockIssuerSTVF"),("credit lock","vm/nova/vm.go:accountBlockIssuanceCreditLocked"),("implicit accounts","vm/nova/vm.go:implicitAccountSTVF, vm/vm.go:ExecFuncAtMostOneImplicitAccountCreationAddress"),("mana-lock output","unlock_cond.go:HasManalockCondition")],
 observe=["VM verdict"])
p("L08","Staked funds stay bonded and staking rewards are claimed once",
 "A staking feature starts in the epoch of commitment slot plus max committable age and ends no earlier than the unbonding period after it; while the epoch of commitment slot plus min committable age is not past its end epoch it can be neither removed nor changed except to extend its end (or by keeping it equal), the staked amount never exceeds the account's tokens, and it needs a block issuer feature and a commitment input. Rewards are claimed exactly in the transaction that removes, resets or destroys an expired staking feature: such a transaction without a reward input is refused and so is a reward input without such a removal.",
 H,"all staking lifecycles across epochs, with boundary slots, extensions, resets, destruction and byzantine reward claims repeated over the life of an account",
 "Boundary epochs and the once-only claim depend on histories across epochs which example tests do not chain.",
 ["vm/nova/vm.go","feat_staking.go","output.go","timeprovider.go"],
 [("staking STVF","vm/nova/vm.go:accountStakingSTVF and friends"),("reward claim coupling","vm/nova/vm.go:accountSTVF"),("syntactic rules","output.go:OutputsSyntacticalAccount, OutputsSyntacticalCommitmentInput")],
 observe=["VM verdict"])
p("L09","Delegations keep their terms and claim their rewards once",
 "A delegation is created with the start epoch dictated by the registration slot of the commitment's bounded epoch, delegated amount equal to its tokens and no end epoch; it is transitioned at most once, to delayed claiming with exactly the end epoch dictated by the clock, with validator, delegated amount and start epoch unchanged and without claiming. It is destroyed only by claiming its reward through a reward input, so the reward of a delegation enters the ledger exactly once.",
 H,"all delegation lifecycles at all clock positions relative to the epoch registration slot, honest and byzantine",
 "Tests use a few fixed slots; off-by-one epoch decisions and repeated claims appear only over varied clocks and histories.",
 ["vm/nova/vm.go","output_delegation.go","timeprovider.go"],
 [("delegation STVF","vm/nova/vm.go:delegationSTVF, delegationGenesisValid, delegationStateChangeValid"),("registration slot","vm/nova/vm.go:registrationSlot")],
 observe=["VM verdict"])
p("L10","Sender and issuer features are authentic",
 "An output carrying a sender feature is accepted only if that address (or the address a restricted one wraps) was unlocked by an input of the same transaction, and a newly created chain output with an immutable issuer only if the issuer was. An address counts as unlocked only through its own input; holding only a member of a multi address, an anchor that is not state-transitioned, or an output that expired to somebody else does not count.",
 H,"all combinations of claimed senders and issuers over all address kinds with all combinations of unlocked inputs",
 "Tests try single positive and negative examples; authenticity is over every constellation of unlocked and merely present addresses.",
 ["vm/vm.go","feat_sender.go","feat_issuer.go"],
 [("sender","vm/vm.go:ExecFuncSenderUnlocked"),("issuer","vm/vm.go:IsIssuerOnOutputUnlocked")],
 observe=["VM verdict"])
p("L11","Address restrictions are always honoured",
 "No accepted transaction places on a restricted address (as owner, state controller, governor or expiration return address) anything its capability flags refuse: native tokens, mana, timelock, expiration or storage return conditions, or account, anchor, NFT or delegation outputs. Implicit account creation addresses accept only basic outputs of their permitted form, and at most one of them is consumed per transaction.",
 H,"all capability masks times all outputs produced in histories of honest and byzantine transactions",
 "There are hundreds of mask and output combinations and several positions the address may occupy; tests sample a few.",
 ["output.go","address_restricted.go","address_capabilities_bitmask.go","address_implicit_account_creation.go","vm/vm.go"],
 [("restriction check","output.go:checkAddressRestrictions, OutputsSyntacticalAddressRestrictions"),("implicit accounts","output.go:OutputsSyntacticalImplicitAccountCreationAddress, vm/vm.go:ExecFuncAtMostOneImplicitAccountCreationAddress")],
 observe=["verdict of decoding with validation"])
p("L12","Nothing is burned or destroyed without an explicit capability",
 "A transaction that leaves native tokens or mana unaccounted for, or destroys an account, anchor, foundry or NFT, is accepted only if its capabilities bitmask sets the matching flag; with the flag it is accepted when all other rules hold. Flags are independent, and a mask with trailing zero bytes is refused.",
 H,"all capability masks over all histories of burning and destroying transactions",
 "Tests pair single flags with single actions; independence of flags and presence in every code path needs combinations.",
 ["transaction_capabilities_bitmask.go","bitmask.go","vm/vm.go","vm/nova/vm.go"],
 [("mana burn","vm/vm.go:ExecFuncBalancedMana"),("token burn","vm/vm.go:ExecFuncBalancedNativeTokens"),("destruction","vm/nova/vm.go:*DestructionValid"),("bitmask","bitmask.go")],
 observe=["VM verdict"])
p("L13","Every ledger output pays its storage deposit",
 "Every output of every accepted transaction holds a positive amount that covers its storage score times the storage cost, where the score is the byte size of the output plus the protocol's offsets for the output, its staking, block issuer keys, delegation and addresses; storage deposit returns are at least the minimum deposit of a basic output to the return address and at most the output's amount, and output amounts together never exceed the token supply. Outputs paying exactly the minimum are accepted, one unit less is refused, for all outputs and addresses.",
 H,"all output shapes and storage parameters produced by histories of wallets that pay exactly the minimum, or one less",
 "The deposit is a function of every optional part of an output; tests fix a few shapes.",
 ["storagescore.go","output.go","output_basic.go","output_account.go","output_nft.go","output_foundry.go","output_anchor.go","output_delegation.go","feat.go","address_multi.go"],
 [("min deposit","storagescore.go:StorageScoreStructure"),("check","output.go:OutputsSyntacticalDepositAmount")],
 observe=["verdict of decoding with validation"])
p("L14","Malformed transactions never enter the ledger",
 "Whatever bytes a client sends, a transaction is only accepted if it is for this network and canonical: unique inputs, context inputs, unlocks and allotments in order and unique, reward inputs pointing at existing inputs, a commitment input whenever block issuance, rewards, staking, issuer or delegation outputs need one, outputs with ordered and unique features and unlock conditions, bounded counts and sizes, non-zero lock slots and token amounts, non-cyclic owners and sane counters. Every well-formed one passes these checks.",
 ["inputs","fault_sequences","histories"],"all single and combined structural mutations of valid transactions, applied by byzantine clients or by corruption in transit",
 "Tests enumerate examples per rule; the acceptance boundary is over arbitrary combinations on every output and feature kind.",
 ["transaction.go","transaction_essence.go","signed_transaction.go","output.go","input.go","input_context.go","allotment.go","unlock.go","api_v3.go","syntax_validator.go"],
 [("transaction","transaction.go:SyntacticallyValidate"),("essence","transaction_essence.go:syntacticallyValidateEssence"),("unlock structure","unlock.go"),("serializer rules","api_v3.go")],
 observe=["verdict of API.Decode with validation"])
p("L15","Replicas agree: validation is deterministic and side-effect free",
 "Nodes that receive the same blocks and transactions reach the same verdicts, outputs, IDs and ledger state, whatever the delivery order, duplication, restarts in between or number of validations running at the same time; re-validating later with the same resolved inputs gives the same verdict. Validation never modifies the transaction, the resolved inputs or the ledger state it is given, and no decodable transaction, however hostile, makes a node panic.",
 ["schedules","crash_points","fault_sequences"],"all delivery orders, duplications, crashes, restarts and thread interleavings of several nodes validating the same traffic",
 "Tests validate once in one process; divergence needs different orders, repeated execution and shared objects across goroutines.",
 ["vm/vm.go","vm/nova/vm.go","transaction.go","block.go","output.go","api_v3.go"],
 [("execution","vm/nova/vm.go:Execute, NewVMParamsWorkingSet"),("validation on decode","api_v3.go:Decode"),("shared slices","block.go:syntacticallyValidate")],
 observe=["verdicts and state of simulated nodes"])
p("L16","Networks are founded only with sound parameters, carrying the chosen options",
 "Parameters made for a new network (NewV3SnapshotProtocolParameters with any options, in any order) carry every chosen value unchanged in their accessors, bytes, hash, clock and API, survive the snapshot byte for byte, and count as equal exactly to parameters with the same bytes. They are refused exactly if liveness bounds, committable ages, epoch nearing threshold, epoch length, congestion thresholds, validation blocks, pool coefficient, mana supply or the width of a derived value contradict each other, however large the values; a network whose largest possible block work does not fit gets no API. Decay factors, their sum, bootstrapping duration and target rewards match their definitions up to rounding. On every accepted network, over any number of years and any order of claims, all mana the whole supply generates plus all target rewards stay below the mana bits, no calculation fails, and the target reward decays through the bootstrapping phase and is constant afterwards.",
 ["histories","crash_points","fault_sequences","inputs"],"all combinations of options of networks with epochs shorter than half a year, all orders of options, torn and damaged snapshots, all histories of claims over the life of the network",
 "Tests found a few networks with one slot duration and epoch length; overflow of derived values and of the mana supply needs other combinations and long histories.",
 ["api_v3_protocol_parameters.go","api_protocol_parameters.go","mana.go","mana_decay_provider.go","workscore.go","storagescore.go","rmc.go"],
 [("options and derived values","api_v3_protocol_parameters.go:NewV3SnapshotProtocolParameters"),("sanity checks","api_v3_protocol_parameters.go:manaSupplySanityCheck, timeSanityCheck, congestionControlSanityCheck, stakingSanityCheck"),("equality","api_protocol_parameters.go:Equals"),("target reward","mana.go:TargetReward"),("block work bound","workscore.go:MaxBlockWork")],
 observe=["whether the constructor panics","Bytes, Hash, Equals and accessors","ManaDecayProvider results, TargetReward"])
p("B01","Blocks are accepted only inside their slot window, network and version",
 "A node accepts a block exactly if its protocol version, network ID and size fit, parents are bounded in number, ordered, unique and weak parents are disjoint from strong and shallow-like ones, its commitment is at most max committable age old and, unless it is the genesis commitment, at least min committable age old relative to the slot of its issuing time, a contained transaction is not created after the block's slot, and that transaction's commitment input obeys the same ages and is not newer than the block's commitment. Validation blocks must not declare a supported version below their own.",
 ["schedules","fault_sequences","inputs"],"all issuer clocks (skewed, jumping), delays and replays of blocks, all slot distances around the ages, all parents constellations and parameterisations",
 "The window is two-sided with several slots; tests check few offsets and never clocks drifting between issuer and node.",
 ["block.go","block_id.gen.go","parent ids in api_v3.go","timeprovider.go"],
 [("window","block.go:syntacticallyValidate"),("transaction window","block.go:BasicBlockBody.syntacticallyValidate"),("version dispatch","api_common.go, api_epoch_based_provider.go")],
 observe=["verdict of BlockFromBytes / Decode with validation"])
p("B02","Identifiers commit to the whole content and signatures to the issuer",
 "Block, transaction, signed transaction, output, commitment and attestation identifiers are the same on every node, before and after transport and storage, and equal those derived from the documented byte layout; the attestation of a block has the block's ID. Altering any byte of a signed block, attestation or transaction in transit or storage is detected: it fails to decode, changes the identifier, or fails signature verification, and an object signed by one key never verifies for another, for other content or for another network.",
 ["fault_sequences","crash_points","inputs"],"all corruptions (bit flips, truncations, spliced parts of other messages) of blocks, attestations, transactions and commitments at any instant of transport or storage",
 "Tests compare a few fixed IDs; tamper evidence is over every byte position and every substitution of parts between objects.",
 ["block.go","block_id.gen.go","attestation.go","transaction.go","signed_transaction.go","output_id.go","commitment.go","commitment_roots.go","signature_ed25519.go"],
 [("block id","block.go:ID, BlockIdentifierFromBlockBytes"),("attestation","attestation.go:BlockID, VerifySignature"),("tx id","transaction.go:ID"),("commitment id","commitment.go:ID")],
 observe=["IDs and VerifySignature on simulated nodes"])
p("B03","Stored and transmitted objects survive crash and transport unchanged",
 "Any block, transaction, output, unlock, commitment, attestation, protocol parameters, context or API response object written to disk or sent as bytes or JSON decodes again, in a restarted process, to an equal object with the same bytes, size and identifier. Torn, truncated, extended or bit-flipped binary data is either refused with an error or decodes to an object that re-encodes to exactly the same bytes: it is never misread, never accepted in a non-canonical form, and never causes a panic or an allocation far beyond the size of the data. Damaged JSON is refused or decodes to an object that itself survives encoding and decoding. Outputs, addresses, unlock conditions, features and block issuer keys are equal by their own Equal methods exactly if their bytes are equal, whichever of the two is asked.",
 ["crash_points","fault_sequences","inputs"],"all objects generated by simulated traffic, crashed and corrupted at any byte, restored in a fresh API instance",
 "Round trips are tested on examples; torn or flipped data is not, and canonicity is over every decodable byte string.",
 ["api_v3.go","api_common.go","block.go","output*.go","feat*.go","unlock*.go","address*.go","merklehasher/merkle_proof.go","api/core.go"],
 [("serix registration","api_v3.go:V3API"),("codec","api_v3.go:Encode/Decode/JSONEncode/JSONDecode"),("sizes","Size() methods")],
 observe=["Encode/Decode/JSONEncode/JSONDecode across simulated disk and network"])
p("B04","Work score and mana cost account for every part of a block",
 "The mana cost of any block equals the reference mana cost times its work score, and the work score equals the protocol's weighted sum over bytes, inputs, context inputs, outputs, native tokens, staking, block issuer features, allotments and signatures contained in the payload; it does not depend on transport or storage, never wraps around and is never above the maximum block work the API states. Validation blocks cost nothing.",
 ["histories","inputs"],"all blocks produced in simulated histories with randomised work score parameters and reference mana costs, charged independently by every node",
 "Tests fix a few blocks and parameters; every node must charge the same amount for every block shape.",
 ["workscore.go","block.go","signed_transaction.go","output*.go","unlock*.go","rmc.go"],
 [("work score","workscore.go and WorkScore methods"),("mana cost","rmc.go:ManaCost, block.go:ManaCost")],
 observe=["Block.WorkScore, Block.ManaCost"])
p("B05","Slot and epoch clock is consistent under any clock movement",
 "For any protocol parameters and any movement of a node's clock, the slot of a time is non-decreasing, every slot's start and end times bracket exactly the times that map to it, slots and epochs tile time without gaps or overlaps from genesis on, times before genesis map to the genesis slot, and epoch start, end and remaining-slot helpers agree with the slot to epoch mapping.",
 ["schedules","configurations"],"all clock positions including jumps forwards and backwards, instants exactly on and one nanosecond around boundaries, all genesis, slot duration and epoch parameters",
 "Tests sample fixed slots of one configuration; off-by-ones hide at boundaries of other parameterisations.",
 ["timeprovider.go","slot_index.gen.go","epoch_index.gen.go"],
 [("slot clock","timeprovider.go:SlotFromTime, SlotStartTime, SlotEndTime"),("epochs","timeprovider.go:EpochFromSlot, EpochStart, EpochEnd")],
 observe=["TimeProvider results for a simulated clock"])
p("B06","Merkle and output proofs can not be forged",
 "An output ID proof, tangle, mutation or attestation proof produced by a node verifies for exactly the element and root it was made for, also after transport. For any other output, element, index, transaction or root, and for any corrupted or recombined proof, verification fails or yields a different identifier, and producing or checking a proof never panics on hostile data.",
 ["fault_sequences","inputs"],"all element counts and positions, all byzantine substitutions of elements, paths, indices and roots, and corruption in transit",
 "Tests verify honest proofs for a few sizes; soundness is over every forged or damaged proof.",
 ["merklehasher/merkle_hasher.go","merklehasher/merkle_proof.go","output_id_proof.go","commitment_roots.go"],
 [("hash tree","merklehasher/merkle_hasher.go"),("proof","merklehasher/merkle_proof.go:ContainsValue, Hash"),("output proof","output_id_proof.go:OutputID"),("roots","commitment_roots.go:AttestationsProof, TangleProof, MutationProof")],
 observe=["proof verification on the client side of a simulated network"])
p("W01","Transactions built by the builder are accepted and account for all mana",
 "A transaction built and signed by the transaction builder from spendable outputs of a wallet, with enough tokens, is accepted by every node that receives it inside its commitment window; the builder returns an error rather than an unacceptable transaction. Transactions, blocks and outputs made with the builders are exactly what was asked for: the same inputs, outputs, unlocks and header fields, in the canonical order, with the previous state of an output left untouched and forbidden changes (immutable features, both anchor roles at once) refused. The mana it computes as available equals what the VM grants (stored, potential, rewards), allotting the required amount covers the block's cost at the given reference cost, allotted plus stored plus reported remainder equals what was available, mana bound to a block issuer account is never moved off it, and cloning the builder or building from it leaves other builders untouched.",
 H,"all wallets states and sequences of builder calls for all output kinds and slot-clock positions, with delivery delayed and reordered",
 "Builder tests run a dozen recipes with dummy inputs and never execute the result against a ledger that moves on.",
 ["builder/transaction_builder.go","builder/block_builder.go","builder/output_builder_*.go","vm/nova/vm.go"],
 [("mana accounting","builder/transaction_builder.go:CalculateAvailableManaInputs, CalculateAvailableManaRemaining"),("allotment","builder/transaction_builder.go:AllotMinRequiredManaAndStoreRemainingManaInOutput, AllotAllMana"),("unlocks","builder/transaction_builder.go:Build")],
 observe=["VM verdict on built transactions"])
p("W02","A wallet restored after a crash controls exactly the same funds",
 "A key manager or account restored from the mnemonic or seed in a fresh process derives, for every account and address index, the same key pair, addresses and owner identities as before, distinct from those of every other index, and its signer signs for its own addresses in every form (plain, implicit account creation, restricted) so that the signature verifies, while refusing addresses it has no key for. Nothing derived depends on the order or concurrency of earlier derivations.",
 ["crash_points","schedules"],"all crash and restore points of wallets, all orders and interleavings of derivations and signing requests, all index values",
 "Tests check single known vectors; recovery is over every index, every order and after every crash.",
 ["wallet/keymanager.go","wallet/account.go","address_signer.go","builder/transaction_builder.go"],
 [("derivation","wallet/keymanager.go"),("account","wallet/account.go"),("signer","address_signer.go:InMemoryAddressSigner")],
 observe=["signatures accepted by simulated nodes after restore"])
p("W03","Addresses survive storage as text and damage to them is detected",
 "Every address of every kind, written as bech32 with any network prefix, parses back to the identical address and prefix, in either all-lower or all-upper case. A stored or transmitted address text damaged in up to four characters, truncated, extended, mixed in case, with another network's prefix, or carrying another kind of address is refused or, where it parses, renders back to exactly the same text; parsing never panics.",
 ["fault_sequences","inputs"],"all addresses used in simulated histories and all damages of their text representation in storage or transit",
 "Tests use listed vectors; the error-detecting guarantee is over every position and combination of damage.",
 ["bech32/bech32.go","bech32/checksum.go","bech32/chars.go","address.go","address_multi.go","address_restricted.go"],
 [("codec","bech32/bech32.go:Encode, Decode"),("checksum","bech32/checksum.go"),("addresses","address.go:ParseBech32")],
 observe=["ParseBech32 results"])
p("C01","HTTP client calls tell the truth under network faults",
 "A node client call returns success only if the node's complete response arrived with a success status and decoded and the result equals what the node sent; on connection loss, timeouts, cancelled contexts, truncated or garbled bodies or error statuses it returns an error and no fabricated result; for a well-formed error answer the error matches the documented sentinel for the status and carries the node's message, for a cancellation it is the context's error. Every request carries the right method, route, query and payload for its parameters, every response body is closed, cancellation returns promptly, and no response makes the client panic.",
 ["fault_sequences","schedules"],"all API calls under all fault sequences of the simulated transport: refused, delayed, truncated, corrupted, duplicated and erroneous responses and cancellation at any instant",
 "Tests mock one clean response per route; fault handling is over every call, status and cut point.",
 ["nodeclient/http.go","nodeclient/http_api_client.go","nodeclient/management_client.go","nodeclient/indexer_client.go","api/endpoints.go"],
 [("request and response handling","nodeclient/http.go:do, interpretBody"),("calls","nodeclient/http_api_client.go:Client")],
 observe=["return values of Client methods; requests seen by the simulated node"])
p("C02","Paginated queries deliver every item exactly once and end",
 "Walking a paginated query (validators, indexer output queries) yields, for a node that serves a consistent list (indexer pages before the last one not empty), every item exactly once in order whatever the page sizes, stops after the last page or the page limit, and reports the first error instead of silently ending early; after an error, the last page or the limit the walk makes no further request by itself. Malformed pages from a node give an error, never a panic, and a walk a hostile node keeps going ends with the caller's context or limit.",
 ["fault_sequences","schedules"],"all item counts, page sizes, cursors, limits and faults at any page",
 "Tests use one or two fixed pages without faults.",
 ["nodeclient/http_api_client.go","nodeclient/indexer_client.go","api/indexer.go"],
 [("validators","nodeclient/http_api_client.go:ValidatorsAll"),("indexer","nodeclient/indexer_client.go:IndexerResultSet")],
 observe=["items seen by the caller; requests seen by the simulated node"])
p("C03","A lying node can not pass off a wrong output",
 "Outputs fetched by ID are returned only if the node's inclusion proof ties exactly that output to exactly the requested output ID; a node that returns another output, altered fields, another's proof or corrupted data causes an error. Blocks, commitments and other answers are decoded under the protocol version the answer declares and never panic the client.",
 ["fault_sequences","inputs"],"all substitutions and corruptions a byzantine node or the network can apply to answers",
 "Tests only use honest nodes; soundness is over every lie.",
 ["nodeclient/http_api_client.go","output_id_proof.go"],
 [("verified fetch","nodeclient/http_api_client.go:OutputByID, OutputWithMetadataByID")],
 observe=["return values of Client methods against a byzantine node"])
p("C04","Event subscriptions deliver each event once, in order, until closed",
 "For every subscription of the event API client, each message published on its topic while the subscription is active and its consumer reads is handed over exactly once and decoded, and in the order of delivery as far as the MQTT library does not deliver messages at the same time; malformed messages are reported to whoever waits for errors and are skipped without affecting later ones, and nothing is handed over from other topics. A slow or absent consumer of one subscription does not hold up others. The topic subscribed matches the requested event and parameters, and the broker is the node's.",
 ["schedules","fault_sequences"],"all interleavings of broker deliveries, consumer reads, several subscriptions, malformed payloads and cancellation",
 "Tests deliver a single message synchronously; ordering and loss depend on the interleaving of deliveries, reads and cancellation.",
 ["nodeclient/event_api_client.go"],
 [("subscriptions","nodeclient/event_api_client.go:subscribeToTopic"),("error channel","nodeclient/event_api_client.go:sendErrOrDrop")],
 observe=["subscription channels under a simulated broker"])
p("C05","Event client shutdown never blocks, leaks or panics",
 "However deliveries, consumer stalls, subscription closing, context cancellation, connection loss and Close interleave, no call and no delivery blocks forever once the client's context is done, closing a subscription unsubscribes exactly its topic and returns the broker's error, a subscription that could not be made says so, channels are never written after a close in a way that panics, subscribing panics exactly when the client is not active, and connection errors are surfaced to whoever waits for them or dropped but never stall the client.",
 ["schedules","fault_sequences"],"all interleavings of delivery, stall, close, cancel and disconnect",
 "Deadlocks and sends on closed channels need particular interleavings that a test run does not hit.",
 ["nodeclient/event_api_client.go"],
 [("lifecycle","nodeclient/event_api_client.go:Connect, Close, EventAPIClientSubscription.Close")],
 observe=["simulated scheduler's blocked-task detection"])
p("C06","The block issuer client submits exactly what was built, with valid work",
 "Sending a payload through the block issuer client issues one request whose body is exactly the payload's bytes, whose headers carry the ID of the commitment the block is to use and a nonce that satisfies the issuer's proof-of-work target for that payload; with a transaction builder the transaction is created in the slot the caller set (else in the latest commitment's slot), it allots to the issuer the mana a block with it costs at the issuer's reference mana cost and stores what is left in the output the caller named. On any fault or cancellation before the answer arrived it returns an error and no success, nothing that the rules refuse is submitted, and retrying after a fault spends the same inputs.",
 ["fault_sequences","schedules"],"all payloads, targets, commitments and transport faults at any step of the info, mining and submission exchange",
 "Tests mock a fixed exchange without faults and without checking the work.",
 ["nodeclient/blockissuer_client.go","blockissuer/pow/pow.go","blockissuer/pow/worker.go","builder/transaction_builder.go"],
 [("submission","nodeclient/blockissuer_client.go:SendPayload, SendPayloadWithTransactionBuilder"),("work","blockissuer/pow")],
 observe=["requests seen by a simulated block issuer"])
p("C07","Parallel proof of work returns only valid nonces and always terminates",
 "Whatever the number of workers and their interleaving, mining returns either a nonce whose digest has at least the requested trailing zeros or an error; cancelling at any instant makes it return the cancellation error after finitely many steps of each worker unless a nonce was found, an unsatisfiable target is reported, and when it returns no worker keeps running. The result depends only on data and target, never on unsynchronised state.",
 ["schedules"],"all interleavings of workers, watcher and cancellation, all targets and worker counts",
 "Tests run real threads once; leaks, races and stale results depend on the interleaving.",
 ["blockissuer/pow/worker.go","blockissuer/pow/pow.go"],
 [("worker pool","blockissuer/pow/worker.go:Mine"),("score","blockissuer/pow/pow.go")],
 observe=["return values and live tasks under a simulated scheduler"])
p("K01","Protocol version lookup is consistent while parameters change",
 "However adding protocol parameters, announcing future versions, advancing the committed slot and looking up APIs interleave, every lookup by version, slot, epoch or time returns the API that a sequential execution would: the highest version whose start epoch is not after the requested epoch, an error for unknown versions, a latest API never older than one already announced and a committed API that never moves backwards. No interleaving races, deadlocks or returns half-updated state, and the protocol version hash commits to all versions, epochs and parameters.",
 ["schedules","histories"],"all interleavings of several threads updating and querying one provider",
 "Tests are sequential; torn reads and lost updates need particular interleavings.",
 ["api_epoch_based_provider.go","api_protocol_epoch_versions.go","api_provider.go"],
 [("provider","api_epoch_based_provider.go:EpochBasedProvider"),("version table","api_protocol_epoch_versions.go:ProtocolEpochVersions")],
 state=["protocol version tables"],observe=["results under a simulated scheduler with race detection"])
p("K02","One API, signer and decoded object can be shared by many threads",
 "API instances, time and mana providers, storage score structures, in-memory signers, virtual machines and decoded blocks, transactions and outputs can be used for encoding, decoding, validating, hashing, cloning and executing by any number of threads at once: results equal those of a sequential run and no data race occurs. Clones of transactions, outputs, features, unlocks and builders share no mutable state with the original.",
 ["schedules"],"all interleavings of threads using the same objects, and all mutations of clones",
 "Tests are sequential; sharing bugs show only under interleaving or after mutation of a clone.",
 ["api_v3.go","block.go","output.go","transaction.go","address_signer.go","vm/nova/vm.go","builder/transaction_builder.go"],
 [("shared API","api_v3.go:v3api"),("clone methods","output_*.go, feat*.go, unlock*.go, transaction*.go Clone"),("validation","block.go:syntacticallyValidate")],
 observe=["results and race reports under a simulated scheduler"])
p("N01","Hex numbers and identifiers parse and print exactly",
 "Hex encoding and decoding of bytes, 64 bit and 256 bit numbers and of every identifier type are inverse to each other, case-insensitive and reject malformed text.",
 ["inputs"],"all byte strings and texts","The value space is infinite; tests sample vectors.",
 ["hexutil/numbers.go","*.gen.go"],[("hex codec","hexutil"),("identifier codecs","*.gen.go")])
p("N02","String and log renderings never fail",
 "The String methods of all types return a readable rendering for every value, valid or not, without panicking.",
 ["inputs"],"all values of all types","Tests render few values.",
 ["output*.go","feat*.go","unlock*.go","address*.go"],[("stringers","String methods")])
p("N03","API routes and query strings are formed per the REST specification",
 "For every endpoint constant and parameter set the route and query string equal the specification's.",
 ["inputs"],"all endpoints and parameters","Tests check a few routes; the specification is not in the repository.",
 ["api/endpoints.go"],[("routes","api/endpoints.go:EndpointWithNamedParameterValue")])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=3
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
