#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED: the properties that have a check."""
import json
LEDGER="""L01 L02 L03 L04 L05 L06 L07 L08 L09 L10 L11 L12 L13 L14 L15 B01 B02 B04""".split()
CONC_NOTE="Sampled, not exhaustive: seeded interleavings of the real code, instrumented at statement level from the current sources, under a token-passing scheduler; the race detector judges the happens-before relation of each schedule. Preemption inside one statement and weak-memory effects are seen only by the race detector."
STORE_NOTE="Sampled, not exhaustive: seeded objects over every kind of the reference model, seeded crash points, damage and transports. Trusts the reference encoder (sim/model, written from the documented layout), Go's standard ed25519 and x/crypto blake2b, and reflect-based equality of decoded objects. Small-order Ed25519 keys are exempt from the signature comparison (ZIP-215)."
CLIENT_NOTE="the node is a stub that serves objects of the reference model; the network is an http.RoundTripper; TLS, TCP and HTTP/1 framing are not simulated; protocol version 3 is the only one this code knows"
OTHER={
"L16":("networks founded with drawn options (also contradicting and extreme ones, in several orders), their parameters written to a simulated snapshot that is torn and damaged, read by other nodes and compared with twins that differ in one number; years of mana and rewards claimed at arbitrary instants; verdicts, bytes, derived values and mana compared with a reference","the reference parameters, verdict and mana arithmetic are trusted; options are sampled around every boundary; verdicts that hang on the last digits of a floating point number are not judged; epochs are shorter than half a year"),
"W01":("wallets with skewed clocks build transactions, blocks and outputs with the builders from the states a simulated ledger with faults reaches, clone and abuse builders on the way, and send the result to the nodes; compared byte for byte with a reference wallet, mana with a reference accounting, verdicts with the reference model","the reference wallet and ledger model are trusted; inputs are those reachable by the generated histories; wallets whose clock is behind the commitment they reference are left out"),
"W02":("wallets used by threads under a deterministic scheduler crash and are restored from mnemonic or seed (also as mistyped, damaged, or without a working random source); keys, addresses, paths, sentences, accounts and signatures compared with a reference derivation (SLIP-10, BIP-39) and between lives; race detector on every schedule",CONC_NOTE+" The word list and checksum of sentences are those of the BIP-39 dependency."),
"W03":("addresses of every kind written as text to simulated address books and sent over simulated links: torn and lost writes, bit rot, substitutions, losses, insertions, case and lookalike changes, other prefixes, mixtures and re-encoded payloads; compared with a reference codec",STORE_NOTE),
"B03":("objects written to a simulated disk or sent over simulated links as bytes, streams or JSON, with crashes, torn and lost writes, bit flips, splices and restarts in a fresh API instance; compared with a reference encoder",STORE_NOTE),
"C01":("concurrent node client calls to a simulated node over a simulated network with losses, resets, short and garbled bodies, duplicates, error statuses, slow bodies and cancellations at every point; requests, results and errors compared with what the node has",CLIENT_NOTE),
"C02":("paginated walks over simulated lists cut into arbitrary pages, with network faults, cancellations and altered pages at every request; items, requests and errors compared with the list",CLIENT_NOTE),
"C03":("a simulated node that lies: other outputs, altered fields, foreign, recombined and corrupted proofs, other versions, damaged JSON and bytes; accepted outputs compared with the ledger's",CLIENT_NOTE),
"C04":("event client subscriptions under a deterministic scheduler with a simulated MQTT library, broker and connection: bursts, malformed and foreign messages, slow and leaving consumers, refused subscriptions, lost connections and cancellation at any step; received objects compared with what was published","the MQTT library, the connection and the broker are a fake with the library's delivery rules (handlers run at the same time unless ordered delivery is asked for, weaker qualities of service lose or repeat messages); schedules are sampled"),
"C05":("the event client's lifecycle under a deterministic scheduler: deliveries, stalled and leaving consumers, unsubscribing, lost connections, Close and cancellation in all orders; blocked handlers, leaked tasks, panics, data races and errors judged","the MQTT library, the connection and the broker are a fake with the library's delivery rules (handlers run at the same time unless ordered delivery is asked for, weaker qualities of service lose or repeat messages); schedules are sampled"),
"C06":("payloads and transactions of wallets sent through the block issuer client to a simulated issuer over a simulated network with losses, resets, damaged answers, error statuses, cancellation at any step of the mining and retries; requests, headers, work, transaction bytes, result and error compared with a reference",CLIENT_NOTE),
"B06":("proofs made, transported and attacked (recombination, corruption, hostile shapes) between simulated nodes and a client; verdicts compared with a reference Merkle tree",STORE_NOTE),
"B05":("nodes with skewed clocks that tick, jump, step back and land on boundaries, restart with rebuilt parameters and read the clock while it moves, under a deterministic scheduler; slots, epochs and their times compared with a reference on whole numbers","the reference is trusted; clock movements and parameters are sampled, concentrated on edges of slots, epochs and of the range of slots"),
"K01":("task interleavings of writers and readers of the version provider under a deterministic scheduler; histories checked for linearizability against a reference provider, race detector on every schedule",CONC_NOTE),
"K02":("threads that use the same API, virtual machine, parameters, providers, signers, builders and decoded objects interleave under a deterministic scheduler; every result compared with that of the same use alone on fresh objects, shared objects compared with their bytes afterwards, clones compared and then changed wholly, race detector on every schedule",CONC_NOTE),
"C07":("task interleavings of the proof-of-work workers, with cancellations at arbitrary steps, under a deterministic scheduler; nonces checked against an independent proof-of-work computation, termination within bounded steps, race detector on every schedule",CONC_NOTE),
}
NA={
"N01":"hex and identifier text conversion is a pure function of its argument: no schedule, clock, I/O, fault or second party takes part, so a simulator has nothing to decide; it is input testing (unit tests and fuzzing fit)",
"N02":"String methods are pure renderings without concurrency, time, I/O or parties; simulation adds nothing to calling them on inputs",
"N03":"route and query strings are compile-time constants and pure formatting that would have to be compared with an external specification text, which is not available offline; no fault or schedule matters",
}
TECH="deterministic simulation with fault injection: seeded search over "
checks=[]
def add(p,tech,note):
    checks.append({"property":p,"quick_cmd":f"./run.sh {p} quick","thorough_cmd":f"./run.sh {p} thorough",
      "evidence_file":f"evidence/{p}.json","technique":TECH+tech,"level":"exploration","level_note":note})
for p in LEDGER:
    add(p,"ledger histories, byzantine clients, network and crash faults; every verdict refined against an executable reference model",
      "Sampled, not exhaustive: seeded runs of a small network whose nodes run the real decoding, validation and VM code. Trusts the reference model (sim/model, written from the protocol rules on bytes, sharing no code with the repository), Go's standard ed25519 and x/crypto blake2b, and that consensus delivers one total order.")
for p,(t,n) in OTHER.items(): add(p,t,n)
done={c["property"] for c in checks}|set(NA)
for l in open("/verif/properties.jsonl"):
    i=json.loads(l)["id"]
    if i not in done: NA[i]="check not built yet"
json.dump({"version":1,"setup_cmd":"./run.sh setup",
 "hooks":{"guard":"none","enable":"no hooks are committed in /repo: nodes, disks, network and clock are simulated around its public interfaces; for the concurrency properties instrumented copies of the current sources are generated at check time and given to the build with -overlay","source_commits":[]},
 "checks":sorted(checks,key=lambda c:c["property"]),
 "not_applicable":[{"property":k,"reason":v} for k,v in sorted(NA.items())],
 "notes":"known-findings.txt lists the defects found; fixes are the commits in /repo that start with fix:"},open("/verif/MANIFEST.json","w"),indent=1)
print(len(checks),"checks")
