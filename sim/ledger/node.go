package ledger

import (
	"context"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	"github.com/iotaledger/iota.go/v4/vm/nova"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

// Verdict of a node about one log entry.
type Verdict struct {
	Stage string // decode, block-signature, none (no transaction), missing, stub, unlock, execute, ok
	Err   error
	Panic string
	Block *iotago.Block
	Used  int
	Tx    *iotago.SignedTransaction
	Res   vm.ResolvedInputs
	Outs  []iotago.Output
	// results of accepted blocks
	BlockID  iotago.BlockID
	TxID     iotago.TransactionID
	SignedID iotago.SignedTransactionID
}

func (v *Verdict) OK() bool { return v.Stage == "ok" || v.Stage == "none" }
func (v *Verdict) Short() string {
	if v.Panic != "" {
		return "panic at " + v.Panic
	}
	if v.Err != nil {
		return fmt.Sprintf("%s (%s)", v.Stage, errText(v.Err))
	}
	return v.Stage
}

// Env0 is what a node resolves from parts of a real node that are stubbed here: the block issuance credit of an account
// and the reward of a chain at a commitment.
type stubEnv struct{ seed uint64 }

func (e stubEnv) BIC(acc model.Hash, commit uint32) int64 {
	h := core.Mix(e.seed, 11, core.HashStr(string(acc[:])), uint64(commit))
	switch h % 20 {
	case 0:
		return -1 - int64(h>>40)
	case 1:
		return 0
	case 2:
		return -1
	}
	return int64(h >> 30)
}

func (e stubEnv) Reward(chain string, commit uint32) uint64 {
	h := core.Mix(e.seed, 12, core.HashStr(chain), uint64(commit))
	switch h % 6 {
	case 0:
		return 0
	case 1:
		return h >> 20
	case 2:
		if e.rich() {
			return ^uint64(0) - (h>>20)%3
		}
	}
	return (h >> 8) % 100000
}

// rich tells whether the ledger holds more mana than there should ever be.
func (e stubEnv) rich() bool { return core.Mix(e.seed, 13)%6 == 0 }

// Disk is what survives a crash.
type Disk struct {
	Outputs map[model.OutputID][]byte
	Applied int // log entries applied
	Commits [][]byte
	Byslot  map[uint32][]byte
}

// Node runs the real code.
type Node struct {
	ID   int
	P    *model.Params
	API  iotago.API
	VM   vm.VirtualMachine
	Env  stubEnv
	Disk *Disk

	// volatile
	Up    bool
	cache map[model.OutputID]iotago.Output
	inbox map[int][]byte
	spec  map[int]*Verdict
	root  iotago.Identifier
	dirty bool
}

func newNode(id int, p *model.Params, env stubEnv) *Node {
	n := &Node{ID: id, P: p, Env: env, Disk: &Disk{Outputs: map[model.OutputID][]byte{}, Byslot: map[uint32][]byte{}}}
	n.boot()
	return n
}

func (n *Node) boot() {
	n.API = RealAPI(n.P)
	n.VM = nova.NewVirtualMachine()
	n.cache, n.inbox, n.spec = map[model.OutputID]iotago.Output{}, map[int][]byte{}, map[int]*Verdict{}
	n.Up, n.dirty = true, true
}

func (n *Node) crash() {
	n.Up, n.API, n.VM, n.cache, n.inbox, n.spec = false, nil, nil, nil, nil, nil
}

// output loads an output: from the cache, or decoded from its stored bytes.
func (n *Node) output(id model.OutputID) (iotago.Output, error) {
	if o := n.cache[id]; o != nil {
		return o, nil
	}
	b := n.Disk.Outputs[id]
	if b == nil {
		return nil, nil
	}
	var o iotago.TxEssenceOutput
	used, err := n.API.Decode(b, &o, serix.WithValidation())
	if err != nil {
		return nil, err
	}
	if used != len(b) {
		return nil, fmt.Errorf("stored output %x: %d of %d bytes read", id[:4], used, len(b))
	}
	n.cache[id] = o
	return o, nil
}

func (n *Node) commitment(slot uint32) (*iotago.Commitment, error) {
	b := n.Disk.Byslot[slot]
	if b == nil {
		return nil, nil
	}
	c := new(iotago.Commitment)
	if _, err := n.API.Decode(b, c, serix.WithValidation()); err != nil {
		return nil, err
	}
	return c, nil
}

// judge evaluates the bytes of a block.
func (n *Node) judge(b []byte) (v *Verdict) {
	v = &Verdict{Stage: "decode"}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(core.Stop); ok {
				panic(r)
			}
			v.Panic = core.PanicSite()
			v.Err = fmt.Errorf("panic: %v", r)
		}
	}()
	blk, used, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(n.API))(b)
	v.Used = used
	if err != nil {
		v.Err = err
		return v
	}
	if used != len(b) {
		v.Err = errTrailing
		return v
	}
	v.Block = blk
	if v.BlockID, err = blk.ID(); err != nil {
		v.Err = err
		return v
	}
	v.Stage = "block-signature"
	ok, err := blk.VerifySignature()
	if err != nil || !ok {
		v.Err = err
		if err == nil {
			v.Err = errBlockSig
		}
		return v
	}
	v.Stage = "none"
	body, isBasic := blk.Body.(*iotago.BasicBlockBody)
	if !isBasic {
		return v
	}
	tx, isTx := body.Payload.(*iotago.SignedTransaction)
	if !isTx {
		return v
	}
	v.Tx = tx
	n.judgeTx(v)
	return v
}

// judgeTx resolves, validates and executes the decoded transaction.
func (n *Node) judgeTx(v *Verdict) {
	tx := v.Tx
	var err error
	v.Stage = "id"
	if v.TxID, err = tx.Transaction.ID(); err != nil {
		v.Err = err
		return
	}
	if v.SignedID, err = tx.ID(); err != nil {
		v.Err = err
		return
	}
	v.Stage = "missing"
	if !n.resolve(v) {
		return
	}
	n.run(v)
}

func (n *Node) resolve(v *Verdict) bool {
	t := v.Tx.Transaction
	res := vm.ResolvedInputs{InputSet: vm.InputSet{}, BlockIssuanceCreditInputSet: vm.BlockIssuanceCreditInputSet{}, RewardsInputSet: vm.RewardsInputSet{}}
	ins := t.Inputs()
	for _, in := range ins {
		o, err := n.output(model.OutputID(in.OutputID()))
		if err != nil {
			v.Stage, v.Err = "storage", err
			return false
		}
		if o == nil {
			return false
		}
		res.InputSet[in.OutputID()] = o
	}
	v.Stage = "stub"
	slot := uint32(0)
	if ci := t.CommitmentInput(); ci != nil {
		slot = uint32(ci.CommitmentID.Slot())
		c, err := n.commitment(slot)
		if err != nil {
			v.Stage, v.Err = "storage", err
			return false
		}
		if c == nil {
			return false
		}
		if id, err := c.ID(); err != nil || id != ci.CommitmentID {
			return false
		}
		res.CommitmentInput = c
	}
	for _, b := range t.BICInputs() {
		res.BlockIssuanceCreditInputSet[b.AccountID] = iotago.BlockIssuanceCredits(n.Env.BIC(model.Hash(b.AccountID), slot))
	}
	for _, r := range t.RewardInputs() {
		if int(r.Index) >= len(ins) {
			return false
		}
		oid := ins[r.Index].OutputID()
		switch o := res.InputSet[oid].(type) {
		case *iotago.AccountOutput:
			id := o.AccountID
			if id.Empty() {
				id = iotago.AccountIDFromOutputID(oid)
			}
			res.RewardsInputSet[id] = iotago.Mana(n.Env.Reward("A"+string(id[:]), slot))
		case *iotago.DelegationOutput:
			id := o.DelegationID
			if id.Empty() {
				id = iotago.DelegationIDFromOutputID(oid)
			}
			res.RewardsInputSet[id] = iotago.Mana(n.Env.Reward("D"+string(id[:]), slot))
		default:
			return false
		}
	}
	v.Res = res
	return true
}

// run validates and executes with the resolved inputs.
func (n *Node) run(v *Verdict) {
	v.Stage = "unlock"
	un, err := n.VM.ValidateUnlocks(v.Tx, v.Res)
	if err != nil {
		v.Err = err
		return
	}
	v.Stage = "execute"
	outs, err := n.VM.Execute(v.Tx.Transaction, v.Res, un)
	if err != nil {
		v.Err = err
		return
	}
	v.Outs, v.Stage = outs, "ok"
}

// rerun evaluates the same decoded transaction with the same resolved inputs again.
func (n *Node) rerun(v *Verdict) (w *Verdict) {
	w = &Verdict{Tx: v.Tx, Res: v.Res, Block: v.Block}
	defer func() {
		if r := recover(); r != nil {
			w.Panic, w.Err = core.PanicSite(), fmt.Errorf("panic: %v", r)
		}
	}()
	n.run(w)
	return w
}

// apply stores the effects of an accepted transaction atomically.
func (n *Node) apply(v *Verdict) error {
	if v.Stage != "ok" {
		return nil
	}
	type kv struct {
		id model.OutputID
		b  []byte
		o  iotago.Output
	}
	var add []kv
	for i, o := range v.Outs {
		b, err := n.API.Encode(o)
		if err != nil {
			return fmt.Errorf("encode output %d: %w", i, err)
		}
		id := iotago.OutputIDFromTransactionIDAndIndex(v.TxID, uint16(i))
		add = append(add, kv{model.OutputID(id), b, o})
	}
	for _, in := range v.Tx.Transaction.Inputs() {
		delete(n.Disk.Outputs, model.OutputID(in.OutputID()))
		delete(n.cache, model.OutputID(in.OutputID()))
	}
	for _, a := range add {
		n.Disk.Outputs[a.id] = a.b
		n.cache[a.id] = a.o
	}
	n.dirty = true
	return nil
}

// digest of the stored state.
func digestOf(m map[model.OutputID][]byte) [32]byte {
	ids := make([]model.OutputID, 0, len(m))
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return string(ids[i][:]) < string(ids[j][:]) })
	h := sha256.New()
	for _, id := range ids {
		h.Write(id[:])
		h.Write(m[id])
	}
	var r [32]byte
	h.Sum(r[:0])
	return r
}

// supply adds up the base tokens of the stored outputs with the real decoder.
func (n *Node) supply() (hi, lo uint64, err error) {
	ids := make([]model.OutputID, 0, len(n.Disk.Outputs))
	for id := range n.Disk.Outputs {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return string(ids[i][:]) < string(ids[j][:]) })
	for _, id := range ids {
		o, err := n.output(id)
		if err != nil {
			return 0, 0, err
		}
		var c uint64
		lo, c = bits.Add64(lo, uint64(o.BaseTokenAmount()), 0)
		hi += c
	}
	return hi, lo, nil
}

// close produces and stores the commitment of a slot.
func (n *Node) closeSlot(slot uint32) (iotago.CommitmentID, error) {
	if n.dirty {
		d := digestOf(n.Disk.Outputs)
		n.root = iotago.IdentifierFromData(d[:])
		n.dirty = false
	}
	prev := iotago.NewEmptyCommitment(n.API)
	if k := len(n.Disk.Commits); k > 0 {
		prev = new(iotago.Commitment)
		if _, err := n.API.Decode(n.Disk.Commits[k-1], prev, serix.WithValidation()); err != nil {
			return iotago.EmptyCommitmentID, err
		}
	}
	var pid iotago.CommitmentID
	if len(n.Disk.Commits) > 0 {
		var err error
		if pid, err = prev.ID(); err != nil {
			return pid, err
		}
	}
	roots := iotago.NewRoots(n.root, n.root, n.root, n.root, n.root, n.root, n.root, n.root)
	c := iotago.NewCommitment(n.API.Version(), iotago.SlotIndex(slot), pid, roots.ID(), prev.CumulativeWeight+1, n.API.ProtocolParameters().CongestionControlParameters().MinReferenceManaCost)
	b, err := n.API.Encode(c)
	if err != nil {
		return iotago.EmptyCommitmentID, err
	}
	n.Disk.Commits = append(n.Disk.Commits, b)
	n.Disk.Byslot[slot] = b
	return c.ID()
}

// modelRoots mirrors the roots of a state digest.
func modelRoots(d [32]byte) model.Hash {
	r := model.Blake(d[:])
	var leaves [][]byte
	for i := 0; i < 8; i++ {
		leaves = append(leaves, append([]byte(nil), r[:]...))
	}
	return model.Merkle(leaves)
}

var ctxBG = context.Background()

func le64(x uint64) []byte { return binary.LittleEndian.AppendUint64(nil, x) }
