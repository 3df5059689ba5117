package ledger

import (
	"crypto/ed25519"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"
	"github.com/iotaledger/iota.go/v4/vm"

	"verif.local/sim/model"
)

// Case is a transaction of the history that the model finds nothing wrong with, with all that a node knows about its inputs.
type Case struct {
	Block  []byte
	ids    []model.OutputID
	outs   [][]byte
	owners [][]byte
	commit []byte
	slot   uint32
	env    stubEnv
}

func (p *Pool) remember(b []byte, m *MV) {
	t := m.Block.Tx.Tx
	k := &Case{Block: b, env: p.w.env, ids: t.Inputs}
	var cs *uint32
	if ci := t.Commitment(); ci != nil {
		k.slot = model.SlotOf(ci.Commit)
		k.commit = p.w.byslot[k.slot]
		cs = &k.slot
	}
	for _, c := range m.Coins {
		k.outs = append(k.outs, model.EncOutput(c.O))
		k.owners = append(k.owners, model.EncAddr(ownerOf(p.P, t, c, cs)))
	}
	p.Cases = append(p.Cases, k)
}

// Keys are the keys of the wallets in the simulations.
func Keys() (ks []ed25519.PrivateKey) {
	for _, k := range allKeys {
		ks = append(ks, k.Priv)
	}
	return
}

// Prepared is a case in a process that has decoded and resolved it.
type Prepared struct {
	Node *Node
	V    *Verdict
	k    *Case
}

// Prepare decodes a case with the API of a process.
func (k *Case) Prepare(p *model.Params, api iotago.API, machine vm.VirtualMachine) *Prepared {
	n := &Node{P: p, API: api, VM: machine, Env: k.env, cache: map[model.OutputID]iotago.Output{},
		Disk: &Disk{Outputs: map[model.OutputID][]byte{}, Byslot: map[uint32][]byte{}}}
	for i, id := range k.ids {
		n.Disk.Outputs[id] = k.outs[i]
	}
	if k.commit != nil {
		n.Disk.Byslot[k.slot] = k.commit
	}
	v := &Verdict{Stage: "decode"}
	blk, _, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(api))(k.Block)
	if err != nil {
		v.Err = err
		return &Prepared{n, v, k}
	}
	v.Block, v.Tx = blk, blk.Body.(*iotago.BasicBlockBody).Payload.(*iotago.SignedTransaction)
	if n.resolve(v) {
		v.Stage = "resolved"
	}
	return &Prepared{n, v, k}
}

// Ready tells whether everything the case needs was there.
func (x *Prepared) Ready() bool { return x.V.Stage == "resolved" }

// Run validates and executes the prepared transaction, any number of times.
func (x *Prepared) Run() (stage string, outs []iotago.Output, err error) {
	v := &Verdict{Tx: x.V.Tx, Res: x.V.Res, Block: x.V.Block}
	x.Node.run(v)
	return v.Stage, v.Outs, v.Err
}

// Builder gives a builder that has everything of the transaction but its signatures.
func (x *Prepared) Builder(signer iotago.AddressSigner) *builder.TransactionBuilder {
	api, t := x.Node.API, x.V.Tx.Transaction
	b := builder.NewTransactionBuilder(api, signer)
	for i, in := range t.Inputs() {
		var a iotago.Address
		if _, err := api.Decode(x.k.owners[i], &a, serix.WithValidation()); err != nil {
			return nil
		}
		b.AddInput(&builder.TxInput{UnlockTarget: a, InputID: in.OutputID(), Input: x.V.Res.InputSet[in.OutputID()]})
	}
	if c := t.CommitmentInput(); c != nil {
		b.AddCommitmentInput(c)
	}
	for _, c := range t.BICInputs() {
		b.AddBlockIssuanceCreditInput(c)
	}
	for _, c := range t.RewardInputs() {
		b.AddRewardInput(c, 5)
	}
	for _, o := range t.Outputs {
		b.AddOutput(o)
	}
	for _, a := range t.Allotments {
		b.IncreaseAllotment(a.AccountID, a.Mana)
	}
	b.WithTransactionCapabilities(t.Capabilities)
	b.SetCreationSlot(t.CreationSlot)
	return b
}
