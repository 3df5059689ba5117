package store

import (
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"

	"verif.local/sim/core"
	"verif.local/sim/ledger"
	"verif.local/sim/model"
)

// Known reproduces the known findings about B03.
func Known(c *core.Ctx) {
	p := ledger.GenParams(core.NewRNG(1))
	w := &run{c: c, n: newNode(p)}
	o := &object{k: kUnlock}
	txt := []byte(`{"signature":{"publicKey":0,"signature":"0x00","type":0},"type":0}`)
	w.guard("JSON decoding", o, txt, func() {
		_ = w.n.api.JSONDecode(txt, o.k.ptr(), serix.WithValidation())
	})
	// a time in the year 2554
	t := resp[api.IssuanceBlockHeaderResponse]()
	v := &api.IssuanceBlockHeaderResponse{StrongParents: iotago.BlockIDs{{}}, LatestParentBlockIssuingTime: time.Unix(1, 0), LatestCommitment: &iotago.Commitment{}}
	b, err := t.enc(w.n, v)
	if err != nil {
		c.Fail("encode", "response does not encode: %v", err)
	}
	copy(b[39:47], []byte{255, 255, 255, 255, 255, 255, 255, 255})
	w.arrived(w.n, &object{k: t, v: v, b: b[:1]}, b)
	// a tagged data payload that announces 2 GB of data
	long := []byte{0, 0, 0, 0, 0, 128}
	k := &kind{name: "payload", dec: iface[iotago.ApplicationPayload]}
	w.guard("decoding", &object{k: k}, long, func() { _, _, _ = k.dec(w.n, long) })
	c.Evals += 3
}

// KnownProof reproduces the known findings about B06.
func KnownProof(c *core.Ctx) {
	p := ledger.GenParams(core.NewRNG(1))
	w := &run{c: c, n: newNode(p)}
	o := &object{k: kProof}
	txt := []byte(`{"slot":1,"outputIndex":0,"transactionCommitment":1,"outputCommitmentProof":{}}`)
	w.guard("JSON decoding", o, txt, func() {
		_ = w.n.api.JSONDecode(txt, o.k.ptr(), serix.WithValidation())
	})
	// Two outputs of a transaction; the second is passed off as the first.
	outs := iotago.TxEssenceOutputs{}
	for i := 0; i < 2; i++ {
		m := &model.Output{Kind: model.OutBasic, Amount: uint64(i + 1), UCs: []model.UC{{Type: model.UCAddress, Addr: &model.Addr{Kind: model.AddrEd25519}}}}
		v, _, err := kOutput.dec(w.n, model.EncOutput(m))
		if err != nil {
			c.Fail("refused", "output refused: %v", err)
		}
		outs = append(outs, v.(iotago.TxEssenceOutput))
	}
	proof, err := iotago.NewOutputIDProof(w.n.api, iotago.Identifier{}, 1, outs, 1)
	if err != nil {
		c.Fail("no-proof", "no proof: %v", err)
	}
	proof.OutputIndex = 0
	if id, err := proof.OutputID(outs[1]); err == nil && id.Index() == 0 {
		c.Finding("output-index", "forged", "the proof of output 1 of a transaction with its output index set to 0 gives ID %s, which is output 0's", id.ToHex())
	}
	c.Evals += 2
}
