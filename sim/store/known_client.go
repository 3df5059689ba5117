package store

import (
	"context"
	"net/http"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/nodeclient"

	"verif.local/sim/core"
	"verif.local/sim/ledger"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

// KnownClient reproduces the known findings about the node client.
func KnownClient(c *core.Ctx) {
	r := core.NewRNG(1)
	p := ledger.GenParams(r)
	n := newNode(p)
	h := &httpRun{c: c, m: &maker{n: n, pool: &ledger.Pool{P: p}}, w: &wire{}, base: "http://node.sim", hrp: p.HRP}
	h.vers = []version{{p.Version, 0, p, n}}
	// Two outputs of a transaction; the node passes off the second as the first.
	outs := iotago.TxEssenceOutputs{}
	for i := 0; i < 2; i++ {
		m := &model.Output{Kind: model.OutBasic, Amount: uint64(i + 1), UCs: []model.UC{{Type: model.UCAddress, Addr: &model.Addr{Kind: model.AddrEd25519}}}}
		v, _, err := kOutput.dec(n, model.EncOutput(m))
		if err != nil {
			c.Fail("refused", "output refused: %v", err)
		}
		outs = append(outs, v.(iotago.TxEssenceOutput))
	}
	proof := func(i uint16) *iotago.OutputIDProof {
		x, err := iotago.NewOutputIDProof(n.api, iotago.Identifier{}, 1, outs, i)
		if err != nil {
			c.Fail("no-proof", "no proof: %v", err)
		}
		return x
	}
	id, err := proof(0).OutputID(outs[0])
	if err != nil {
		c.Fail("no-proof", "no ID: %v", err)
	}
	forged := proof(1)
	forged.OutputIndex = 0
	lie, err := n.api.Encode(&api.OutputResponse{Output: outs[1], OutputIDProof: forged})
	if err != nil {
		c.Fail("encode", "no answer: %v", err)
	}
	calls := []*call{
		h.known(`{"startEpoch":0,"endEpoch":0,"rewards":1,"latestCommittedEpochPoolRewards":"0"}`, "rewards", func(ctx context.Context, cl *nodeclient.Client) (any, error) {
			return ret(cl.Rewards(ctx, iotago.OutputID{}))
		}),
		h.known(string(lie), "output", func(ctx context.Context, cl *nodeclient.Client) (any, error) {
			return ret(cl.OutputByID(ctx, id))
		}),
	}
	calls[0].lied = func(any, error) {}
	calls[1].lied = func(res any, err error) {
		if err == nil && c.Prop == "C03" {
			c.Finding("output-index", "wrong-output", "output 1 of a transaction was passed off as its output 0")
		}
	}
	simrt.Run(simrt.Config{Seed: 1, MaxSteps: 1_000_000}, func(s *simrt.Sim) {
		x := h.newCall()
		x.do = func(context.Context, *nodeclient.Client) (any, error) {
			cl, err := nodeclient.New(h.base, nodeclient.WithHTTPClient(&http.Client{Transport: h.w}))
			h.client = cl
			return cl, err
		}
		h.run(x)
		for _, k := range calls {
			if h.client != nil {
				h.run(k)
			}
		}
	})
	if h.client == nil {
		c.Fail("refused", "no client")
	}
	for _, k := range calls {
		h.judge(k)
	}
}

// known is a call with a given answer.
func (h *httpRun) known(body, name string, do func(context.Context, *nodeclient.Client) (any, error)) *call {
	c := &call{name: name, do: do, total: -1, fault: fLie, met: true, faultAt: -1}
	c.serve = func(int, *seen) *answer { return &answer{status: 200, body: []byte(body)} }
	return c
}
