package main

import (
	"verif.local/sim/conc"
	"verif.local/sim/core"
	"verif.local/sim/ledger"
	"verif.local/sim/store"
)

const ledgerReal = "block/transaction/output decoding and validation (serix + syntactic validators), block signature check, identifiers, commitment production, nova VM unlock validation and execution, storage score, mana decay"
const ledgerStub = "consensus (total-order log), peer-to-peer network, database (in-memory disk with atomic commits), block issuance credits and rewards (deterministic functions of account and commitment)"

const storeReal = "serix encoding and decoding of blocks, transactions, outputs, unlocks, addresses, commitments, attestations, protocol parameters and API objects as bytes and JSON, stream readers, identifiers, signatures, Merkle proofs"
const storeStub = "disk (append log with synced prefix and volatile tail), links, processes (a fresh API instance each)"

func specs() map[string]*core.Spec {
	m := map[string]*core.Spec{}
	add := func(s *core.Spec) { m[s.Prop] = s }
	for _, p := range []string{"L01", "L02", "L03", "L04", "L05", "L06", "L07", "L08", "L09", "L10", "L11", "L12", "L13", "L14", "L15", "B01", "B02", "B04"} {
		quick := 500
		if p == "L15" {
			quick = 250
		}
		var alt []core.Alt
		if p == "B02" {
			alt = []core.Alt{{Name: "store", W: store.World{}, Every: 2}}
			quick = 900
		}
		add(&core.Spec{Prop: p, World: "ledger", W: ledger.World{}, Alt: alt, Quick: quick, Thorough: 100000,
			Rule:    "one evaluation is one block judged by one real node and compared with the reference model (or one final/side-effect comparison)",
			Measure: "distinct accepted transaction shapes (kinds, conditions, features of inputs and outputs, capabilities), rules broken in isolation and block kinds x verdicts",
			Real:    ledgerReal, Stub: ledgerStub})
	}
	add(&core.Spec{Prop: "W01", World: "ledger", W: ledger.World{}, Quick: 450, Thorough: 200000,
		Rule:    "one evaluation is one transaction and block built by the builders and compared with the reference, or one block judged by one real node and compared with the reference model",
		Measure: "distinct recipes x reasons for refusal, accepted transaction shapes",
		Real:    "transaction, block and output builders, in-memory signer, " + ledgerReal, Stub: ledgerStub})
	add(&core.Spec{Prop: "B03", World: "store", W: store.World{}, Quick: 1200, Thorough: 200000, Extra: store.Known,
		Rule:    "one evaluation is one object encoded, stored or sent and judged after it arrived (intact or damaged) in a process",
		Measure: "distinct object kinds x sizes, refusal causes, damaged objects that still decode",
		Real:    storeReal, Stub: storeStub})
	add(&core.Spec{Prop: "W02", World: "wallets", W: store.Wallets{}, Quick: 600, Thorough: 300000, Extra: store.KnownWallet,
		Rule:    "one evaluation is one use of a wallet, signer or account compared with the reference derivation",
		Measure: "distinct uses x kinds of secret and address, schedules",
		Real:    "key managers, accounts, address signers, addresses and signatures (instrumented copies of the current sources), BIP-39 and BIP-32 paths of the dependency",
		Stub:    "goroutine scheduling (simrt), the random source, process memory (lost in crashes), the user's note of mnemonic or seed"})
	add(&core.Spec{Prop: "L16", World: "genesis", W: ledger.Genesis{}, Quick: 1500, Thorough: 300000,
		Rule:    "one evaluation is one network founded with options, read back or damaged, or one history of the mana and rewards of a network, compared with the reference",
		Measure: "distinct rules that refuse options, shapes of accepted networks",
		Real:    "NewV3SnapshotProtocolParameters and its options, derived parameters, their encoding, hash and comparison, V3 API, mana decay provider, target rewards",
		Stub:    "the snapshot (lost and damaged bits, torn writes), the founder, the years that pass, the ledger state that holds all tokens (one owner)"})
	add(&core.Spec{Prop: "W03", World: "texts", W: store.Texts{}, Quick: 1500, Thorough: 300000,
		Rule:    "one evaluation is one text of an address written, or read back intact or damaged, and compared with the reference codec",
		Measure: "distinct kinds of address x prefix length x case, kinds of damage x verdict",
		Real:    "bech32 codec, address kinds, ParseBech32, serix decoding of addresses",
		Stub:    "address book file (append log with synced prefix, torn tail and bit rot), links (damage by kind)"})
	add(&core.Spec{Prop: "B06", World: "store", W: store.World{}, Quick: 1500, Thorough: 300000, Extra: store.KnownProof,
		Rule:    "one evaluation is one proof made and verified, or one verification of an altered proof compared with the reference tree",
		Measure: "distinct list sizes x positions, attack outcomes, hostile proof shapes",
		Real:    "output ID proofs, roots proofs, Merkle hasher and proofs, their encodings, serix", Stub: storeStub})
	add(&core.Spec{Prop: "K01", World: "versions", W: conc.Versions{}, Quick: 2000, Thorough: 1000000,
		Rule:    "one evaluation is one call of the provider whose result takes part in the linearizability check",
		Measure: "distinct schedules (hash of all switches and where they happened) and sets of call kinds and outcomes",
		Real:    "EpochBasedProvider, ProtocolEpochVersions, protocol parameters, V3 API construction (instrumented copies of the current sources)",
		Stub:    "goroutine scheduling, locks and time (simrt)"})
	add(&core.Spec{Prop: "K02", World: "share", W: store.Share{}, Quick: 400, Thorough: 300000,
		Rule:    "one evaluation is one operation of a thread on shared objects whose result is compared with that of the same operation alone, or one shared object compared with its bytes afterwards",
		Measure: "distinct operations x results and schedules",
		Real:    "API, serix, validators, VM, signer, builders, identifiers, providers, decoded blocks, transactions, outputs and their clones (instrumented copies of the current sources)",
		Stub:    "goroutine scheduling and locks (simrt), consensus and the ledger state (the reference model's)"})
	add(&core.Spec{Prop: "C07", World: "pow", W: conc.Pow{}, Quick: 3000, Thorough: 1000000,
		Rule:    "one evaluation is one call of Mine whose result, termination and remaining tasks are judged",
		Measure: "distinct schedules and combinations of workers, target class, cancellation and outcome",
		Real:    "pow.Worker and the score function (instrumented copies of the current sources)",
		Stub:    "goroutine scheduling, wait groups, channels and cancellation instants (simrt)"})
	add(&core.Spec{Prop: "B05", World: "clock", W: conc.Clock{}, Quick: 4000, Thorough: 3000000, Extra: conc.KnownClock,
		Rule:    "one evaluation is one reading of a clock or one fact about a slot or epoch compared with the reference",
		Measure: "distinct kinds of clock movement x position relative to genesis, slot and epoch edges, parameter classes and schedules",
		Real:    "TimeProvider, created from values and through decoded protocol parameters (instrumented copies of the current sources)",
		Stub:    "the clock (time.Now) and goroutine scheduling (simrt)"})
	for _, p := range []string{"C01", "C02", "C03"} {
		add(&core.Spec{Prop: p, World: "client", W: store.Client{}, Quick: 1200, Thorough: 500000, Extra: store.KnownClient,
			Rule:    "one evaluation is one call of the node client whose requests, result, error, context and response bodies are judged",
			Measure: "distinct calls x faults x outcomes and schedules",
			Real:    "nodeclient.Client, management, indexer and block issuer clients, net/http client, serix, API objects, version provider, output ID proofs (instrumented copies of the current sources)",
			Stub:    "the node (answers built from the reference model's objects), the network (http.RoundTripper that decides losses, resets, damage, delay and status), goroutine scheduling (simrt)"})
	}
	for _, q := range []string{"C04", "C05"} {
		add(&core.Spec{Prop: q, World: "events", W: store.Events{}, Quick: 1200, Thorough: 600000,
			Rule:    "one evaluation is one step of a user of the event client, its broker or its network; every message, error, handler and unsubscription is judged",
			Measure: "distinct outcomes of subscriptions and schedules",
			Real:    "event API client, node client, serix, API objects (instrumented copies of the current sources)",
			Stub:    "the MQTT library with the broker and the connection (a fake mqtt.Client with the library's delivery rules), the node, goroutine scheduling and cancellation instants (simrt)"})
	}
	add(&core.Spec{Prop: "C06", World: "client", W: store.Client{}, Quick: 420, Thorough: 300000,
		Rule:    "one evaluation is one call of the block issuer client whose requests, work, payload, result and error are judged",
		Measure: "distinct calls x faults x outcomes and schedules",
		Real:    "block issuer client, node client, transaction builder, proof-of-work worker, net/http client, serix (instrumented copies of the current sources)",
		Stub:    "the block issuer, the network (http.RoundTripper), goroutine scheduling and cancellation instants (simrt)"})
	for _, s := range m {
		s.Serial = true // one run at a time in a process: the scheduler and the order of maps belong to it
	}
	return m
}
