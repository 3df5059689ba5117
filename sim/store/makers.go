package store

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"strconv"
	"strings"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/nodeclient"

	"verif.local/sim/core"
	"verif.local/sim/ledger"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

type make_ = func(h *httpRun, r *core.RNG) *call

func blockID(r *core.RNG) (id iotago.BlockID)           { copy(id[:], r.Bytes(36)); return }
func txID(r *core.RNG) (id iotago.TransactionID)        { copy(id[:], r.Bytes(36)); return }
func commitmentID(r *core.RNG) (id iotago.CommitmentID) { copy(id[:], r.Bytes(36)); return }
func outputID(r *core.RNG) (id iotago.OutputID)         { copy(id[:], r.Bytes(38)); return }
func slotIndex(r *core.RNG) uint32                      { return r.U32() >> uint(r.Intn(32)) }
func accountOf(r *core.RNG) (a iotago.AccountAddress)   { copy(a[:], r.Bytes(32)); return }
func (h *httpRun) bech(kind byte, id []byte) string {
	return model.BechEncode(h.hrp, append([]byte{kind}, id...))
}
func (h *httpRun) lying(c *call, lied func(any, error)) *call { c.fault, c.lied = fLie, lied; return c }

func nodeclientCall[T any](f func(ctx context.Context, cl *nodeclient.Client) (*T, error)) func(ctx context.Context, cl *nodeclient.Client) (any, error) {
	return func(ctx context.Context, cl *nodeclient.Client) (any, error) {
		v, err := f(ctx, cl)
		if v == nil {
			return nil, err
		}
		return v, err
	}
}

// hostileJSON lets a call meet altered JSON: anything but a panic will do.
func (h *httpRun) hostile(r *core.RNG, c *call) *call {
	s := c.serve
	rr := r.Fork()
	c.serve = func(i int, q *seen) *answer {
		a := s(i, q)
		if c.fault == fLie && a.status == 200 {
			if json.Valid(a.body) {
				a.body = damageJSON(rr, a.body)
			} else {
				a.body = ledger.Damage(rr, a.body)
			}
		}
		return a
	}
	return h.lying(c, func(any, error) {})
}

func simple[T any](path func(h *httpRun, r *core.RNG) (string, url.Values, func(ctx context.Context, cl *nodeclient.Client) (*T, error))) make_ {
	return func(h *httpRun, r *core.RNG) *call {
		p, q, do := path(h, r)
		return h.hostile(r, h.jsonCall(p, q, filled[T](h, r), nodeclientCall(do)))
	}
}

var makers map[string]make_

func init() {
	makers = map[string]make_{
		"health":        health("/health", func(ctx context.Context, cl *nodeclient.Client) (bool, error) { return cl.Health(ctx) }),
		"networkHealth": health(corePath+"/network/health", func(ctx context.Context, cl *nodeclient.Client) (bool, error) { return cl.NetworkHealth(ctx) }),
		"routes": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.RoutesResponse, error)) {
			return "/api/routes", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.RoutesResponse, error) { return cl.Routes(ctx) }
		}),
		"metrics": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.NetworkMetricsResponse, error)) {
			return corePath + "/network/metrics", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.NetworkMetricsResponse, error) {
				return cl.NetworkMetrics(ctx)
			}
		}),
		"blockMeta": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.BlockMetadataResponse, error)) {
			id := blockID(r)
			return blockPath(id[:]) + "/metadata", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.BlockMetadataResponse, error) {
				return cl.BlockMetadataByBlockID(ctx, id)
			}
		}),
		"issuance": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.IssuanceBlockHeaderResponse, error)) {
			return corePath + "/blocks/issuance", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.IssuanceBlockHeaderResponse, error) {
				return cl.BlockIssuance(ctx)
			}
		}),
		"outputMeta": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.OutputMetadata, error)) {
			id := outputID(r)
			return corePath + "/outputs/0x" + hx(id[:]) + "/metadata", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.OutputMetadata, error) {
				return cl.OutputMetadataByID(ctx, id)
			}
		}),
		"includedMeta": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.BlockMetadataResponse, error)) {
			id := txID(r)
			return corePath + "/transactions/0x" + hx(id[:]) + "/included-block/metadata", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.BlockMetadataResponse, error) {
				return cl.TransactionIncludedBlockMetadata(ctx, id)
			}
		}),
		"txMeta": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.TransactionMetadataResponse, error)) {
			id := txID(r)
			return corePath + "/transactions/0x" + hx(id[:]) + "/metadata", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.TransactionMetadataResponse, error) {
				return cl.TransactionMetadata(ctx, id)
			}
		}),
		"commitment": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*iotago.Commitment, error)) {
			id := commitmentID(r)
			return corePath + "/commitments/0x" + hx(id[:]), nil, func(ctx context.Context, cl *nodeclient.Client) (*iotago.Commitment, error) {
				return cl.CommitmentByID(ctx, id)
			}
		}),
		"commitmentSlot": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*iotago.Commitment, error)) {
			s := slotIndex(r)
			return fmt.Sprintf("%s/commitments/by-slot/%d", corePath, s), nil, func(ctx context.Context, cl *nodeclient.Client) (*iotago.Commitment, error) {
				return cl.CommitmentBySlot(ctx, iotago.SlotIndex(s))
			}
		}),
		"utxo": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.UTXOChangesResponse, error)) {
			id := commitmentID(r)
			return corePath + "/commitments/0x" + hx(id[:]) + "/utxo-changes", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.UTXOChangesResponse, error) {
				return cl.CommitmentUTXOChangesByID(ctx, id)
			}
		}),
		"utxoFull": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.UTXOChangesFullResponse, error)) {
			id := commitmentID(r)
			return corePath + "/commitments/0x" + hx(id[:]) + "/utxo-changes/full", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.UTXOChangesFullResponse, error) {
				return cl.CommitmentUTXOChangesFullByID(ctx, id)
			}
		}),
		"utxoSlot": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.UTXOChangesResponse, error)) {
			s := slotIndex(r)
			return fmt.Sprintf("%s/commitments/by-slot/%d/utxo-changes", corePath, s), nil, func(ctx context.Context, cl *nodeclient.Client) (*api.UTXOChangesResponse, error) {
				return cl.CommitmentUTXOChangesBySlot(ctx, iotago.SlotIndex(s))
			}
		}),
		"utxoFullSlot": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.UTXOChangesFullResponse, error)) {
			s := slotIndex(r)
			return fmt.Sprintf("%s/commitments/by-slot/%d/utxo-changes/full", corePath, s), nil, func(ctx context.Context, cl *nodeclient.Client) (*api.UTXOChangesFullResponse, error) {
				return cl.CommitmentUTXOChangesFullBySlot(ctx, iotago.SlotIndex(s))
			}
		}),
		"congestion": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.CongestionResponse, error)) {
			a, q := accountOf(r), url.Values{}
			ws := iotago.WorkScore(0)
			if r.Bool() {
				ws = iotago.WorkScore(slotIndex(r) | 1)
				q.Set("workScore", strconv.FormatUint(uint64(ws), 10))
			}
			var opt []iotago.CommitmentID
			if r.Bool() {
				id := commitmentID(r)
				q.Set("commitmentId", "0x"+hx(id[:]))
				opt = append(opt, id)
			}
			return corePath + "/accounts/" + h.bech(8, a[:]) + "/congestion", q, func(ctx context.Context, cl *nodeclient.Client) (*api.CongestionResponse, error) {
				return cl.Congestion(ctx, &a, ws, opt...)
			}
		}),
		"validators": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.ValidatorsResponse, error)) {
			q := url.Values{}
			ps := uint64(0)
			if r.Bool() {
				ps = core.Pick(r, []uint64{1, 2, 10, r.U64()>>uint(r.Intn(64)) | 1})
				q.Set("pageSize", strconv.FormatUint(ps, 10))
			}
			var cur []string
			if r.Bool() {
				cur = append(cur, core.Pick(r, []string{"a", "1,2", "x y&z=+", "é"}))
				q.Set("cursor", cur[0])
			}
			return corePath + "/validators", q, func(ctx context.Context, cl *nodeclient.Client) (*api.ValidatorsResponse, error) {
				return cl.Validators(ctx, ps, cur...)
			}
		}),
		"validator": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.ValidatorResponse, error)) {
			a := accountOf(r)
			return corePath + "/validators/" + h.bech(8, a[:]), nil, func(ctx context.Context, cl *nodeclient.Client) (*api.ValidatorResponse, error) {
				return cl.Validator(ctx, &a)
			}
		}),
		"rewards": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.ManaRewardsResponse, error)) {
			id := outputID(r)
			return corePath + "/rewards/0x" + hx(id[:]), nil, func(ctx context.Context, cl *nodeclient.Client) (*api.ManaRewardsResponse, error) {
				return cl.Rewards(ctx, id)
			}
		}),
		"committee": simple(func(h *httpRun, r *core.RNG) (string, url.Values, func(context.Context, *nodeclient.Client) (*api.CommitteeResponse, error)) {
			q := url.Values{}
			var opt []iotago.EpochIndex
			if r.Bool() {
				e := slotIndex(r)
				q.Set("epoch", strconv.FormatUint(uint64(e), 10))
				opt = append(opt, iotago.EpochIndex(e))
			}
			return corePath + "/committee", q, func(ctx context.Context, cl *nodeclient.Client) (*api.CommitteeResponse, error) {
				return cl.Committee(ctx, opt...)
			}
		}),
		"info":           mkInfo,
		"new":            mkNew,
		"submit":         mkSubmit,
		"block":          mkBlock,
		"includedBlock":  mkIncluded,
		"blockFull":      mkBlockFull,
		"output":         mkOutput,
		"outputFull":     mkOutputFull,
		"transaction":    mkTransaction,
		"peer":           mkPeer,
		"peers":          mkPeers,
		"removePeer":     mkRemovePeer,
		"addPeer":        mkAddPeer,
		"issuerInfo":     mkIssuerInfo,
		"sendPayload":    mkSendPayload,
		"sendTx":         mkSendTx,
		"plugin":         mkPlugin,
		"indexerQuery":   mkIndexerQuery,
		"indexerOne":     mkIndexerOne,
		"validatorsAll":  mkValidatorsAll,
		"indexerAll":     mkIndexerAll,
		"indexerOutputs": mkIndexerOutputs,
	}
}

func health(path string, f func(ctx context.Context, cl *nodeclient.Client) (bool, error)) make_ {
	return func(h *httpRun, r *core.RNG) *call {
		c := &call{total: 1, noRes: true, soft: true}
		c.wants = one(&want{method: "GET", path: path})
		c.serve = func(int, *seen) *answer { return &answer{status: 200, body: []byte(`{"isHealthy":true}`)} }
		c.do = func(ctx context.Context, cl *nodeclient.Client) (any, error) {
			ok, err := f(ctx, cl)
			return ok, err
		}
		c.judge = func(res any, err error) {
			h.c.Check(err == nil && res == true, "health", "%s: the node is healthy, the client says %v, %v", c.name, res, err)
		}
		return c
	}
}

func mkInfo(h *httpRun, r *core.RNG) *call {
	v := h.info(r, slotIndex(r))
	c := h.jsonCall(corePath+"/info", nil, v, nodeclientCall(func(ctx context.Context, cl *nodeclient.Client) (*api.InfoResponse, error) { return cl.Info(ctx) }))
	return h.hostile(r, c)
}

func mkNew(h *httpRun, r *core.RNG) *call {
	slot := slotIndex(r)
	info := h.info(r, slot)
	none := r.Pct(8)
	if none {
		info.ProtocolParameters = nil
	}
	c := h.jsonCall(corePath+"/info", nil, info, func(ctx context.Context, cl *nodeclient.Client) (any, error) {
		x, err := nodeclient.New(h.base, h.options()...)
		if x == nil {
			return nil, err
		}
		return x, err
	})
	c.name, c.noCtx = "new", true
	c.judge = func(res any, err error) {
		if none {
			h.c.Check(err != nil, "no-parameters", "a client was made although the node told no protocol parameters")
			return
		}
		h.c.Check(err == nil, "refused", "no client could be made: %v\n%s", err, c.sent)
		h.versions(res.(*nodeclient.Client), slot)
	}
	c = h.hostile(r, c)
	return c
}

func mkSubmit(h *httpRun, r *core.RNG) *call {
	b, v := h.block(r)
	raw := model.EncBlock(b)
	id := v.p.BlockID(b)
	blk := h.real(v, raw)
	c := &call{total: 1, noRes: true}
	c.wants = one(&want{method: "POST", path: corePath + "/blocks", body: raw, ctype: mimeRaw})
	loc := "0x" + hx(id[:])
	kind := r.Weighted(6, 1, 1, 1)
	switch kind {
	case 1:
		loc = ""
	case 2:
		loc = loc[:r.Intn(len(loc))]
	case 3:
		loc = core.Pick(r, []string{hx(id[:]), "zz", "0x0x", "http://node/" + loc, " "})
	}
	c.serve = func(i int, q *seen) *answer {
		a := &answer{status: 201, head: map[string]string{}}
		if loc != "" {
			a.head["Location"] = loc
		}
		return a
	}
	c.do = func(ctx context.Context, cl *nodeclient.Client) (any, error) {
		return ret(cl.SubmitBlock(ctx, blk))
	}
	c.judge = func(res any, err error) {
		if kind > 0 {
			h.c.Check(err != nil, "no-error", "submit: the answer has the location %q, the result is %v", loc, res)
			return
		}
		got := res.(iotago.BlockID)
		h.c.Check(err == nil && bytes.Equal(got[:], id[:]), "other-result", "submit: the node says %s, the client %v, %v", loc, got, err)
	}
	return c
}

// real decodes a block of a version of the node.
func (h *httpRun) real(v version, raw []byte) *iotago.Block {
	b, _, err := iotago.BlockFromBytes(v.n.prov)(raw)
	if err != nil {
		h.c.FailFor([]string{"B03"}, "refused", "block refused: %v\n%x", err, raw)
	}
	return b
}

func (h *httpRun) rawBlock(c *call, r *core.RNG, b *model.Block, v version) []byte {
	raw := model.EncBlock(b)
	rr := r.Fork()
	sent := raw
	if r.Bool() {
		// another version than the block's
		sent = append([]byte(nil), raw...)
		sent[0] = byte(rr.Range(0, 8))
	} else {
		sent = ledger.Damage(rr, raw)
	}
	c.serve = func(i int, q *seen) *answer {
		if c.fault == fLie {
			return h.reply(q, nil, sent)
		}
		return h.reply(q, []byte("{}"), raw)
	}
	return raw
}

func mkBlock(h *httpRun, r *core.RNG) *call {
	b, v := h.block(r)
	id := v.p.BlockID(b)
	c := get(h, blockPath(id[:]), func(c *call) { h.rawBlock(c, r, b, v) })
	c.do = nodeclientCall(func(ctx context.Context, cl *nodeclient.Client) (*iotago.Block, error) {
		return cl.BlockByBlockID(ctx, iotago.BlockID(id))
	})
	c.judge = func(res any, err error) { h.checkBlock(c, b, v, res, err) }
	return h.lying(c, func(res any, err error) {
		if err == nil {
			h.decodedBlock(c, res.(*iotago.Block), c.sent)
		}
	})
}

func mkIncluded(h *httpRun, r *core.RNG) *call {
	b, v := h.block(r)
	id := txID(r)
	c := get(h, corePath+"/transactions/0x"+hx(id[:])+"/included-block", func(c *call) { h.rawBlock(c, r, b, v) })
	c.do = nodeclientCall(func(ctx context.Context, cl *nodeclient.Client) (*iotago.Block, error) {
		return cl.TransactionIncludedBlock(ctx, id)
	})
	c.judge = func(res any, err error) { h.checkBlock(c, b, v, res, err) }
	return h.lying(c, func(res any, err error) {
		if err == nil {
			h.decodedBlock(c, res.(*iotago.Block), c.sent)
		}
	})
}

func mkBlockFull(h *httpRun, r *core.RNG) *call {
	b, v := h.block(r)
	id := v.p.BlockID(b)
	meta := filled[api.BlockMetadataResponse](h, r)
	mraw := withRaw(h.m.n, meta)
	c := get(h, blockPath(id[:])+"/full", func(c *call) {
		raw := h.rawBlock(c, r, b, v)
		s := c.serve
		c.serve = func(i int, q *seen) *answer {
			a := s(i, q)
			if a.status == 200 && (bytes.Equal(a.body, raw) || len(a.body) > 40) {
				a.body = append(append([]byte(nil), a.body...), mraw...)
			}
			return a
		}
	})
	c.do = nodeclientCall(func(ctx context.Context, cl *nodeclient.Client) (*api.BlockWithMetadataResponse, error) {
		return cl.BlockWithMetadataByBlockID(ctx, iotago.BlockID(id))
	})
	c.judge = func(res any, err error) {
		if err != nil {
			h.c.Fail("refused", "blockFull: a complete answer gives the error %v\n%x", err, c.sent)
		}
		x := res.(*api.BlockWithMetadataResponse)
		h.checkBlock(c, b, v, x.Block, err)
		h.same(c, meta, x.Metadata, err)
	}
	return h.lying(c, func(res any, err error) {
		if err == nil {
			h.decodedBlock(c, res.(*api.BlockWithMetadataResponse).Block, c.sent)
		}
	})
}

func (h *httpRun) outputCall(r *core.RNG, suffix string, tail []byte, do func(k *known) func(ctx context.Context, cl *nodeclient.Client) (any, error), got func(any) iotago.Output, more func(c *call, res any)) *call {
	k := h.output(r)
	if k == nil {
		return nil
	}
	lie := h.lieAbout(r, k)
	c := get(h, corePath+"/outputs/"+outHex(k.id)+suffix, func(c *call) {
		c.serve = func(i int, q *seen) *answer {
			b := k.body()
			if c.fault == fLie {
				b = lie
			}
			return h.reply(q, []byte("{}"), append(append([]byte(nil), b...), tail...))
		}
	})
	c.do = do(k)
	c.judge = func(res any, err error) {
		if err != nil {
			h.c.Fail("refused", "%s: a complete answer with a valid proof gives the error %v\n%x", c.name, err, c.sent)
		}
		b, err := h.m.n.api.Encode(got(res))
		h.c.Check(err == nil && bytes.Equal(b, k.out), "other-result", "%s: the output encodes to (%v)\n%x\nit is\n%x", c.name, err, b, k.out)
		if more != nil {
			more(c, res)
		}
	}
	return h.lying(c, func(res any, err error) {
		if err == nil {
			h.judgeOutput(c, k, got(res))
		} else {
			h.c.Check(isNil(res), "fabricated", "%s: an error and an output", c.name)
			h.c.Count("lie-refused")
		}
	})
}

func mkOutput(h *httpRun, r *core.RNG) *call {
	return h.outputCall(r, "", nil, func(k *known) func(ctx context.Context, cl *nodeclient.Client) (any, error) {
		return func(ctx context.Context, cl *nodeclient.Client) (any, error) {
			return ret(cl.OutputByID(ctx, iotago.OutputID(k.id)))
		}
	}, func(x any) iotago.Output { o, _ := x.(iotago.Output); return o }, nil)
}

type outMeta struct {
	o iotago.Output
	m *api.OutputMetadata
}

func mkOutputFull(h *httpRun, r *core.RNG) *call {
	meta := filled[api.OutputMetadata](h, r)
	return h.outputCall(r, "/full", withRaw(h.m.n, meta), func(k *known) func(ctx context.Context, cl *nodeclient.Client) (any, error) {
		return func(ctx context.Context, cl *nodeclient.Client) (any, error) {
			o, m, err := cl.OutputWithMetadataByID(ctx, iotago.OutputID(k.id))
			if o == nil && m == nil {
				return nil, err
			}
			return &outMeta{o, m}, err
		}
	}, func(x any) iotago.Output {
		if o, ok := x.(*outMeta); ok {
			return o.o
		}
		return nil
	}, func(c *call, res any) { h.same(c, meta, res.(*outMeta).m, nil) })
}

func mkTransaction(h *httpRun, r *core.RNG) *call {
	if len(h.m.txs) == 0 {
		return nil
	}
	t := core.Pick(r, h.m.txs).Tx
	id := model.TxID(t)
	raw := model.EncTx(t)
	bad := ledger.Damage(r, raw)
	c := get(h, corePath+"/transactions/0x"+hx(id[:]), func(c *call) {
		c.serve = func(i int, q *seen) *answer {
			if c.fault == fLie {
				return h.reply(q, nil, bad)
			}
			return h.reply(q, []byte("{}"), raw)
		}
	})
	c.do = nodeclientCall(func(ctx context.Context, cl *nodeclient.Client) (*iotago.Transaction, error) {
		return cl.TransactionByID(ctx, iotago.TransactionID(id))
	})
	c.judge = func(res any, err error) {
		if err != nil {
			h.c.Fail("refused", "transaction: a complete answer gives the error %v\n%x", err, c.sent)
		}
		x := res.(*iotago.Transaction)
		got, err := x.ID()
		b, err2 := h.m.n.api.Encode(x)
		h.c.Check(err == nil && err2 == nil && bytes.Equal(got[:], id[:]) && bytes.Equal(b, raw), "other-result", "transaction: ID %x (%v) instead of %x", got[:], err, id[:])
	}
	return h.lying(c, func(res any, err error) {})
}

const peerID = "12D3KooWFJ8Nq6gHLLvigTpPSbyMmLk35k1TcpJof8Y4y8yFAB32"

func manage[T any](f func(ctx context.Context, m nodeclient.ManagementClient) (*T, error)) func(ctx context.Context, cl *nodeclient.Client) (*T, error) {
	return func(ctx context.Context, cl *nodeclient.Client) (*T, error) {
		m, err := cl.Management(ctx)
		if err != nil {
			return nil, err
		}
		return f(ctx, m)
	}
}

func mkPeer(h *httpRun, r *core.RNG) *call {
	return h.hostile(r, h.withPlugin("management", h.jsonCall("/api/management/v1/peers/"+peerID, nil, filled[api.PeerInfo](h, r), nodeclientCall(manage(func(ctx context.Context, m nodeclient.ManagementClient) (*api.PeerInfo, error) {
		return m.PeerByID(ctx, peerID)
	})))))
}

func mkPeers(h *httpRun, r *core.RNG) *call {
	return h.hostile(r, h.withPlugin("management", h.jsonCall("/api/management/v1/peers", nil, filled[api.PeersResponse](h, r), nodeclientCall(manage(func(ctx context.Context, m nodeclient.ManagementClient) (*api.PeersResponse, error) {
		return m.Peers(ctx)
	})))))
}

func mkRemovePeer(h *httpRun, r *core.RNG) *call {
	c := &call{total: 1}
	c.wants = one(&want{method: "DELETE", path: "/api/management/v1/peers/" + peerID})
	c.serve = func(int, *seen) *answer { return &answer{status: 204} }
	c.do = func(ctx context.Context, cl *nodeclient.Client) (any, error) {
		m, err := cl.Management(ctx)
		if err != nil {
			return nil, err
		}
		return nil, m.RemovePeerByID(ctx, peerID)
	}
	c.judge = func(res any, err error) { h.c.Check(err == nil, "refused", "removePeer: %v", err) }
	c.noRes = true
	return h.withPlugin2(c)
}

// withPlugin2 is withPlugin for calls without a result: the question about the plugin has one.
func (h *httpRun) withPlugin2(c *call) *call {
	c = h.withPlugin("management", c)
	j := c.judge
	c.judge = func(res any, err error) {
		if c.met && c.faultAt == 0 && c.fault != fSlow {
			// the first answer was needed
			if c.fault == fNoContent || c.fault == fReset || c.fault == fCancelBody {
				h.c.Check(err != nil, "no-error", "%s reports success although the exchange failed (%s)", c.name, c.fault)
			}
			return
		}
		h.c.Check(len(c.reqs) == c.total, "requests", "%s made %d requests instead of %d (%v)", c.name, len(c.reqs), c.total, err)
		j(res, err)
	}
	return c
}

func mkAddPeer(h *httpRun, r *core.RNG) *call {
	addr, alias := core.Pick(r, []string{"/ip4/127.0.0.1/tcp/14666/p2p/" + peerID, "é\"", "x"}), core.Pick(r, []string{"", "me", "\\ü"})
	var opt []string
	want := map[string]any{"multiAddress": addr}
	if r.Bool() {
		opt = append(opt, alias)
		if alias != "" {
			want["alias"] = alias
		}
	}
	c := h.jsonCall("/api/management/v1/peers", nil, filled[api.PeerInfo](h, r), nodeclientCall(manage(func(ctx context.Context, m nodeclient.ManagementClient) (*api.PeerInfo, error) {
		return m.AddPeer(ctx, addr, opt...)
	})))
	c.wants = one(&want_{method: "POST", path: "/api/management/v1/peers", json: want, ctype: mimeJSON})
	return h.hostile(r, h.withPlugin("management", c))
}

type want_ = want

func mkIssuerInfo(h *httpRun, r *core.RNG) *call {
	return h.hostile(r, h.withPlugin("issuer", h.jsonCall("/api/blockissuer/v1/info", nil, filled[api.BlockIssuerInfo](h, r), nodeclientCall(func(ctx context.Context, cl *nodeclient.Client) (*api.BlockIssuerInfo, error) {
		m, err := cl.BlockIssuer(ctx)
		if err != nil {
			return nil, err
		}
		return m.Info(ctx)
	}))))
}

// mkPlugin asks for an optional part of the node.
func mkPlugin(h *httpRun, r *core.RNG) *call {
	name := core.Pick(r, core.SortedKeys(pluginName))
	var have []string
	for _, p := range allPlugins {
		if r.Bool() {
			have = append(have, p)
		}
	}
	if r.Pct(20) {
		have = append(have, pluginName[name]+"1", strings.ToUpper(pluginName[name]), "api/"+pluginName[name])
	}
	has := false
	for _, p := range have {
		has = has || p == pluginName[name]
	}
	c := &call{total: 1}
	c.wants = one(&want{method: "GET", path: "/api/routes"})
	c.serve = func(int, *seen) *answer { return h.routes(append([]string{}, have...)) }
	c.do = func(ctx context.Context, cl *nodeclient.Client) (any, error) {
		switch name {
		case "management":
			return ret(cl.Management(ctx))
		case "indexer":
			return ret(cl.Indexer(ctx))
		case "events":
			return ret(cl.EventAPI(ctx))
		}
		return ret(cl.BlockIssuer(ctx))
	}
	c.judge = func(res any, err error) {
		if has {
			h.c.Check(err == nil && !isNil(res), "plugin", "the node has %v, asking for %s gives %v", have, name, err)
		} else {
			h.c.Check(errors.Is(err, errNoPlugin[name]), "plugin", "the node has %v, asking for %s gives %v", have, name, err)
		}
	}
	return c
}

func mkIndexerQuery(h *httpRun, r *core.RNG) *call {
	kind, q, params := h.query(r)
	truth := filled[api.IndexerResponse](h, r)
	c := h.jsonCall("/api/indexer/v2"+queryKinds[kind], params, truth, nodeclientCall(func(ctx context.Context, cl *nodeclient.Client) (*api.IndexerResponse, error) {
		m, err := cl.Indexer(ctx)
		if err != nil {
			return nil, err
		}
		rs, err := m.Outputs(ctx, q)
		if err != nil {
			return nil, err
		}
		if !rs.Next() && rs.Error != nil {
			return nil, rs.Error
		}
		return rs.Response, nil
	}))
	return h.hostile(r, h.withPlugin("indexer", c))
}

type single struct {
	id   *iotago.OutputID
	out  iotago.Output
	slot iotago.SlotIndex
}

// mkIndexerOne asks the indexer for the output of a chain.
func mkIndexerOne(h *httpRun, r *core.RNG) *call {
	kinds := map[string]byte{"account": model.OutAccount, "anchor": model.OutAnchor, "foundry": model.OutFoundry, "nft": model.OutNFT, "delegation": model.OutDelegation}
	kind := core.Pick(r, core.SortedKeys(kinds))
	// an output of this kind
	var k *known
	for try := 0; try < 30; try++ {
		x := h.output(r)
		if x == nil {
			return nil
		}
		if x.tx.Outputs[x.i].Kind == kinds[kind] {
			k = x
			break
		}
	}
	lieKind := r.Intn(5)
	if k == nil || lieKind == 0 {
		if x := h.output(r); k == nil || lieKind == 0 {
			// the node answers with an output of another kind
			k = x
		}
	}
	fits := k.tx.Outputs[k.i].Kind == kinds[kind]
	id := r.Bytes(32)
	slot := r.U32() >> 1
	var path string
	var do func(ctx context.Context, m nodeclient.IndexerClient) (*single, error)
	conv := func(id *iotago.OutputID, o iotago.Output, s iotago.SlotIndex, err error) (*single, error) {
		if id == nil && isNil(o) {
			return nil, err
		}
		return &single{id, o, s}, err
	}
	switch kind {
	case "account":
		a := iotago.AccountAddress(id)
		path = "/outputs/account/" + h.bech(8, id)
		do = func(ctx context.Context, m nodeclient.IndexerClient) (*single, error) {
			i, o, s, err := m.Account(ctx, &a)
			return conv(i, o, s, err)
		}
	case "anchor":
		a := iotago.AnchorAddress(id)
		path = "/outputs/anchor/" + h.bech(24, id)
		do = func(ctx context.Context, m nodeclient.IndexerClient) (*single, error) {
			i, o, s, err := m.Anchor(ctx, &a)
			return conv(i, o, s, err)
		}
	case "nft":
		a := iotago.NFTAddress(id)
		path = "/outputs/nft/" + h.bech(16, id)
		do = func(ctx context.Context, m nodeclient.IndexerClient) (*single, error) {
			i, o, s, err := m.NFT(ctx, &a)
			return conv(i, o, s, err)
		}
	case "foundry":
		a := iotago.FoundryID(r.Bytes(38))
		path = "/outputs/foundry/0x" + hx(a[:])
		do = func(ctx context.Context, m nodeclient.IndexerClient) (*single, error) {
			i, o, s, err := m.Foundry(ctx, a)
			return conv(i, o, s, err)
		}
	case "delegation":
		a := iotago.DelegationID(id)
		path = "/outputs/delegation/0x" + hx(a[:])
		do = func(ctx context.Context, m nodeclient.IndexerClient) (*single, error) {
			i, o, s, err := m.Delegation(ctx, a)
			return conv(i, o, s, err)
		}
	}
	items := []string{outHex(k.id)}
	none := r.Pct(15)
	if none {
		items = nil
	}
	txt, _ := json.Marshal(map[string]any{"committedSlot": slot, "pageSize": 10, "items": append([]string{}, items...)})
	lieItems := core.Pick(r, [][]string{{}, {"0x"}, {""}, {"zz"}, {items0(items) + "00"}, {"0x0"}, {outHex(k.id)[:40]}, {outHex(k.id), "zz"}, {strings.ToUpper(outHex(k.id))}})
	lieTxt, _ := json.Marshal(map[string]any{"committedSlot": slot, "pageSize": 10, "items": lieItems})
	lie := h.lieAbout(r, k)
	c := &call{total: 2, lied: nil}
	if none {
		c.total = 1
	}
	out := &want{method: "GET", path: corePath + "/outputs/" + outHex(k.id)}
	c.wants = func(i int) *want {
		switch i {
		case 0:
			return &want{method: "GET", path: "/api/indexer/v2" + path}
		case 1:
			if none && c.fault == fNone {
				return nil
			}
			if c.fault == fLie || c.fault == fFlip && c.faultAt == 1 {
				// whatever the node said
				return &want{method: "GET", path: strings.TrimPrefix(c.reqs[2].path, h.prefix())}
			}
			return out
		}
		return nil
	}
	c.serve = func(i int, q *seen) *answer {
		if i == 0 {
			if c.fault == fLie && lieKind >= 3 {
				return h.reply(q, lieTxt, nil)
			}
			return h.reply(q, txt, nil)
		}
		if c.fault == fLie && lieKind == 2 {
			return h.reply(q, nil, lie)
		}
		return h.reply(q, []byte("{}"), k.body())
	}
	c.do = nodeclientCall(func(ctx context.Context, cl *nodeclient.Client) (*single, error) {
		m, err := cl.Indexer(ctx)
		if err != nil {
			return nil, err
		}
		return do(ctx, m)
	})
	c.judge = func(res any, err error) {
		if none {
			h.c.Check(errors.Is(err, nodeclient.ErrIndexerNotFound), "not-found", "indexer %s: nothing was found, the error is %v", kind, err)
			return
		}
		if !fits {
			h.c.Check(err != nil, "wrong-kind", "indexer %s: the node answered with an output of kind %d and there is no error", kind, k.tx.Outputs[k.i].Kind)
			return
		}
		if err != nil {
			h.c.Fail("refused", "indexer %s: a complete answer gives the error %v", kind, err)
		}
		x := res.(*single)
		b, err := h.m.n.api.Encode(x.out)
		h.c.Check(err == nil && bytes.Equal(b, k.out) && bytes.Equal(x.id[:], k.id[:]) && uint32(x.slot) == slot, "other-result", "indexer %s: got output %x of %v at slot %d (%v), the node sent\n%x of %x at slot %d", kind, b, x.id, x.slot, err, k.out, k.id, slot)
	}
	c = h.withPlugin("indexer", c)
	return h.lying(c, func(res any, err error) {
		if err != nil {
			return
		}
		x := res.(*single)
		h.c.Check(x != nil && x.id != nil, "no-output", "indexer %s: no output and no error", kind)
		if bytes.Equal(x.id[:], k.id[:]) {
			h.judgeOutput(c, k, x.out)
		} else {
			h.c.Fail("wrong-output", "indexer %s: the node passed off an output as %v\n%s", kind, x.id, lieTxt)
		}
	})
}

func items0(x []string) string {
	if len(x) == 0 {
		return "0x"
	}
	return x[0]
}

func (h *httpRun) prefix() string {
	base := h.base
	if h.hook {
		base = "http://proxy.sim/via"
	}
	u, _ := url.Parse(base)
	return u.Path
}

type allValidators struct {
	v   *api.ValidatorsResponse
	all bool
}

func mkValidatorsAll(h *httpRun, r *core.RNG) *call {
	n := core.Pick(r, []int{0, 1, 2, 3, r.Intn(20), r.Intn(12)})
	var vs []*api.ValidatorResponse
	for i := 0; i < n; i++ {
		v := filled[api.ValidatorResponse](h, r)
		vs = append(vs, v)
	}
	p := cut(r, n, true)
	limit := 0
	var opt []int
	if r.Pct(40) {
		limit = r.Range(1, len(p.sizes)+1)
		opt = append(opt, limit)
	}
	total := len(p.sizes)
	if limit > 0 {
		total = min(total, limit)
	}
	var txt [][]byte
	for i, s := range p.sizes {
		at := p.start(i)
		txt = append(txt, h.json(&api.ValidatorsResponse{Validators: append([]*api.ValidatorResponse{}, vs[at:at+s]...), PageSize: uint32(s), Cursor: p.cursor(i)}))
	}
	c := &call{total: total}
	c.wants = func(i int) *want {
		if i >= total {
			return nil
		}
		q := url.Values{}
		if i > 0 {
			q.Set("cursor", p.cursors[i-1])
		}
		return &want{method: "GET", path: corePath + "/validators", query: q}
	}
	c.serve = func(i int, q *seen) *answer {
		k := p.find(q.query.Get("cursor"))
		if k < 0 {
			return notFound()
		}
		return h.reply(q, txt[k], nil)
	}
	c.do = nodeclientCall(func(ctx context.Context, cl *nodeclient.Client) (*allValidators, error) {
		v, all, err := cl.ValidatorsAll(ctx, opt...)
		if v == nil && !all {
			return nil, err
		}
		return &allValidators{v, all}, err
	})
	c.judge = func(res any, err error) {
		if err != nil {
			h.c.Fail("refused", "validatorsAll: %v", err)
		}
		x := res.(*allValidators)
		got := []*api.ValidatorResponse{}
		if x.v != nil {
			got = x.v.Validators
		}
		exp := vs[:p.start(total)]
		h.c.Check(len(got) == len(exp), "items", "validatorsAll: %d validators in pages of %v (limit %d) gave %d", n, p.sizes, limit, len(got))
		if d := diff(exp, got); d != "" && len(exp) > 0 {
			h.c.Fail("items", "validatorsAll: pages of %v gave other validators: %s", p.sizes, d)
		}
		h.c.Check(x.all == (total == len(p.sizes)), "all", "validatorsAll: %d of %d pages were fetched, allRetrieved is %v", total, len(p.sizes), x.all)
	}
	return h.flippable(c, r)
}

// flippable lets a walk meet altered pages: it may then ask for anything, but must end.
func (h *httpRun) flippable(c *call, r *core.RNG) *call {
	w, s := c.wants, c.serve
	c.wants = func(i int) *want {
		if c.fault == fFlip || c.fault == fLie {
			if i > c.faultAt && c.met && i < len(c.reqs) {
				q := c.reqs[i]
				return &want{method: "GET", path: strings.TrimPrefix(q.path, h.prefix()), query: q.query}
			}
		}
		return w(i)
	}
	c.serve = func(i int, q *seen) *answer {
		if i > 200 {
			// no walk of a list this long
			c.ctx.end()
		}
		return s(i, q)
	}
	x := h.hostile(r, c)
	return x
}

func mkIndexerAll(h *httpRun, r *core.RNG) *call { return h.walk(r, false) }

func mkIndexerOutputs(h *httpRun, r *core.RNG) *call { return h.walk(r, true) }

type walked struct {
	items []string
	outs  [][]byte
	after int
}

func (h *httpRun) walk(r *core.RNG, fetch bool) *call {
	kind, q, params := h.query(r)
	n := core.Pick(r, []int{0, 1, 2, 3, r.Intn(20), r.Intn(12)})
	if fetch {
		n = r.Range(1, 5)
	}
	var ids []string
	var ks []*known
	for i := 0; i < n; i++ {
		if fetch {
			k := h.output(r)
			if k == nil {
				return nil
			}
			ks = append(ks, k)
			ids = append(ids, outHex(k.id))
		} else {
			ids = append(ids, "0x"+hx(r.Bytes(38)))
		}
	}
	p := cut(r, n, false)
	var txt [][]byte
	for i, s := range p.sizes {
		at := p.start(i)
		txt = append(txt, h.page(r, ids[at:at+s], p.cursor(i)))
	}
	stop := 0
	if r.Pct(25) {
		stop = r.Range(1, len(p.sizes))
	}
	total := len(p.sizes)
	if stop > 0 {
		total = stop
	}
	// the expected requests in order
	var ws []*want
	var what []int // page, or -1-item
	for i := 0; i < total; i++ {
		v := url.Values{}
		for k := range params {
			v.Set(k, params.Get(k))
		}
		if i > 0 {
			v.Set("cursor", p.cursors[i-1])
		}
		ws = append(ws, &want{method: "GET", path: "/api/indexer/v2" + queryKinds[kind], query: v})
		what = append(what, i)
		if fetch {
			for k := p.start(i); k < p.start(i)+p.sizes[i]; k++ {
				ws = append(ws, &want{method: "GET", path: corePath + "/outputs/" + ids[k]})
				what = append(what, -1-k)
			}
		}
	}
	lieAt := -1
	var lie []byte
	if fetch && h.c.Prop == "C03" {
		lieAt = r.Intn(n)
		lie = h.lieAbout(r, ks[lieAt])
	}
	c := &call{total: len(ws)}
	c.wants = func(i int) *want {
		if i >= len(ws) {
			return nil
		}
		return ws[i]
	}
	c.serve = func(i int, q *seen) *answer {
		if strings.Contains(q.path, "/core/v3/outputs/") {
			for k, id := range ids {
				if strings.HasSuffix(q.path, id) {
					if k == lieAt && c.fault == fLie {
						return h.reply(q, nil, lie)
					}
					return h.reply(q, []byte("{}"), ks[k].body())
				}
			}
			return notFound()
		}
		k := p.find(q.query.Get("cursor"))
		if k < 0 {
			return notFound()
		}
		return h.reply(q, txt[k], nil)
	}
	c.do = func(ctx context.Context, cl *nodeclient.Client) (any, error) {
		m, err := cl.Indexer(ctx)
		if err != nil {
			return nil, err
		}
		rs, err := m.Outputs(ctx, q)
		if err != nil {
			return nil, err
		}
		x := &walked{}
		pages := 0
		for rs.Next() {
			simrt.Yield()
			for _, it := range rs.Response.Items {
				x.items = append(x.items, string(it))
			}
			if fetch {
				outs, err := rs.Outputs(ctx)
				if err != nil {
					return nil, err
				}
				for _, o := range outs {
					b, err := h.m.n.api.Encode(o)
					if err != nil {
						return nil, err
					}
					x.outs = append(x.outs, b)
				}
			}
			if pages++; pages == stop {
				return x, rs.Error
			}
			if pages > 300 {
				return x, errors.New("the walk does not end")
			}
		}
		if rs.Error != nil {
			return nil, rs.Error
		}
		for k := 0; k < 2; k++ {
			if rs.Next() {
				x.after++
			}
		}
		return x, nil
	}
	c.judge = func(res any, err error) {
		if err != nil {
			h.c.Fail("refused", "walk over %s in pages of %v: %v", kind, p.sizes, err)
		}
		x := res.(*walked)
		exp := ids[:p.start(total)]
		h.c.Check(fmt.Sprint(x.items) == fmt.Sprint(exp), "items", "walk over %s: %d items in pages of %v (stopped after %d) gave\n%v\ninstead of\n%v", kind, n, p.sizes, stop, x.items, exp)
		h.c.Check(x.after == 0, "after-end", "Next gives more after the end")
		if fetch {
			h.c.Check(len(x.outs) == len(exp), "items", "walk over %s: %d outputs of %d", kind, len(x.outs), len(exp))
			for i, b := range x.outs {
				h.c.Check(bytes.Equal(b, ks[i].out), "items", "walk over %s: output %d is another one", kind, i)
			}
		}
	}
	c = h.withPlugin("indexer", c)
	if fetch {
		return h.lying(c, func(res any, err error) {
			if err != nil || c.fault != fLie && c.fault != fFlip && c.fault != fDup && c.fault != fEOF {
				return
			}
			x := res.(*walked)
			for i, b := range x.outs {
				if i < len(ks) && x.items[i] == ids[i] && !bytes.Equal(b, ks[i].out) {
					same := false
					for _, o := range ks[i].tx.Outputs {
						same = same || bytes.Equal(model.EncOutput(o), b)
					}
					if same {
						h.indexTold(c, ks[i], b)
						if h.c.Prop == "C03" {
							h.c.Finding("output-index", "wrong-output", "walk: another output of the same transaction was passed off as output %s", ids[i])
						}
						continue
					}
					h.c.Fail("wrong-output", "walk: the node passed off\n%x\nas output %s, which is\n%x", b, ids[i], ks[i].out)
				}
			}
		}).relax(h)
	}
	return h.flippable(c, r)
}

// relax lets a walk ask for anything after an altered page.
func (c *call) relax(h *httpRun) *call {
	w := c.wants
	c.wants = func(i int) *want {
		if c.fault == fFlip && i > c.faultAt && c.met && i < len(c.reqs) {
			q := c.reqs[i]
			return &want{method: "GET", path: strings.TrimPrefix(q.path, h.prefix()), query: q.query}
		}
		return w(i)
	}
	return c
}
