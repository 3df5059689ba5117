package store

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/bits"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/blockissuer/pow"
	"github.com/iotaledger/iota.go/v4/builder"
	"github.com/iotaledger/iota.go/v4/nodeclient"

	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

const (
	issuePath  = "/api/blockissuer/v1/issue"
	headNonce  = "X-IOTA-BlockIssuer-PoW-Nonce"
	headCommit = "X-IOTA-BlockIssuer-Commitment-ID"
)

// issued is what the block issuer client returns.
type issued struct {
	payload iotago.ApplicationPayload
	res     *api.BlockCreatedResponse
}

// issuer is the block issuer of a node, as a call meets it.
type issuer struct {
	target  int
	addr    string
	account *model.Hash // nil: the address is none of an account
	workers []int
	commit  model.ID36
	head    *api.IssuanceBlockHeaderResponse
	blockID model.ID36
	patient int // steps until the caller gives up, -1: never
}

func (h *httpRun) issuer(r *core.RNG) *issuer {
	x := &issuer{patient: -1}
	x.target = core.Pick(r, []int{0, 0, 1, 2, 3, 4, 5, 7})
	if r.Pct(6) {
		x.target = core.Pick(r, []int{65, 66, 100, 255})
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		x.workers = []int{core.Pick(r, []int{0, -1, 1})}
	default:
		x.workers = []int{r.Range(2, 4)}
	}
	if r.Pct(12) && h.c.On("cancel-mining") {
		x.patient = r.Intn(1 << uint(r.Intn(12)))
		x.target = core.Pick(r, []int{x.target, 30, 64})
	}
	var a iotago.AccountAddress
	copy(a[:], r.Bytes(32))
	if as := h.m.pool.Accounts(); len(as) > 0 && r.Bool() {
		a = iotago.AccountAddress(core.Pick(r, as))
	}
	acc := model.Hash(a)
	x.account = &acc
	x.addr = a.Bech32(iotago.NetworkPrefix(h.hrp))
	x.head = filled[api.IssuanceBlockHeaderResponse](h, r)
	x.head.LatestCommitment = new(iotago.Commitment)
	h.m.fill(r, reflect.ValueOf(x.head.LatestCommitment).Elem(), "")
	x.head.LatestCommitment.ReferenceManaCost = iotago.Mana(core.Pick(r, []uint64{0, 1, 1, 2, 10, r.U64() >> uint(r.Intn(64))}))
	copy(x.blockID[:], r.Bytes(36))
	return x
}

// seal fixes the commitment.
func (x *issuer) seal(h *httpRun, slot uint32) {
	l := x.head.LatestCommitment
	l.Slot = iotago.SlotIndex(slot)
	l.ProtocolVersion = iotago.Version(h.vers[0].v)
	x.commit = model.CommitmentID(&model.Commitment{Version: byte(l.ProtocolVersion), Slot: slot, Prev: model.ID36(l.PreviousCommitmentID), Roots: model.Hash(l.RootsID), Weight: l.CumulativeWeight, RMC: uint64(l.ReferenceManaCost)})
}

func (x *issuer) info() []byte {
	b, _ := json.Marshal(map[string]any{"blockIssuerAddress": x.addr, "powTargetTrailingZeros": x.target})
	return b
}

func (x *issuer) created() []byte {
	b, _ := json.Marshal(map[string]any{"blockId": "0x" + hx(x.blockID[:])})
	return b
}

// work counts the trailing zeros of a payload's work.
func work(payload []byte, nonce uint64) int {
	d := blake2b.Sum256(payload)
	s := blake2b.Sum256(binary.LittleEndian.AppendUint64(append([]byte(nil), d[:]...), nonce))
	return bits.TrailingZeros64(binary.LittleEndian.Uint64(s[24:]))
}

// submission is what the last request has to be.
func (x *issuer) submission(h *httpRun, body []byte) *want {
	return &want{method: "POST", path: issuePath, body: body, ctype: mimeRaw, head: map[string]string{headCommit: "0x" + hx(x.commit[:])},
		check: func(name string, q *seen) {
			n, err := strconv.ParseUint(q.head.Get(headNonce), 10, 64)
			h.c.Check(err == nil && work(q.body, n) >= x.target, "work", "%s: the nonce %q gives %d trailing zeros for the payload that was sent, the target is %d", name, q.head.Get(headNonce), work(q.body, n), x.target)
		}}
}

// giveUp ends a context some steps later.
func (x *issuer) giveUp(h *httpRun, c *call, ctx context.Context) func() {
	if x.patient < 0 {
		return func() {}
	}
	c.total, c.hasty = -1, true
	id := simrt.GoNamed("impatient", func() {
		for k := 0; k < x.patient; k++ {
			simrt.Y("wait")
		}
		ctx.(*simCtx).end()
		simrt.Fair()
		simrt.Yield()
	})
	return func() { simrt.Join(id) }
}

// outcome judges a submission that met no other fault.
func (x *issuer) outcome(h *httpRun, c *call, full int, want []byte, why string, res any, err error) {
	k := h.c
	if c.hasty {
		k.Fault("cancel-mining")
		if err != nil {
			k.Check(errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) || errors.Is(err, pow.ErrCanceled) || why != "" || x.target > 64, "wrong-error", "%s was given up, the error is: %v", c.name, err)
			return
		}
	}
	switch {
	case why != "":
		k.Count("issue-refused." + why)
		k.Check(err != nil, "no-error", "%s reports success, it has to be refused: %s", c.name, why)
		k.Check(len(c.reqs) < full, "submitted", "%s submits a payload that has to be refused: %s", c.name, why)
		return
	case x.target > 64:
		k.Check(errors.Is(err, pow.ErrInvalidTargetTrailingZeroes), "wrong-error", "%s: no nonce can have %d trailing zeros, the result is %v", c.name, x.target, err)
		k.Check(len(c.reqs) == full-1, "submitted", "%s submits without work", c.name)
		return
	}
	if err != nil {
		k.Fail("refused", "%s: a complete exchange gives the error %v", c.name, err)
	}
	k.Check(len(c.reqs) == full, "requests", "%s made %d requests instead of %d", c.name, len(c.reqs), full)
	y := res.(*issued)
	k.Check(y.res != nil && model.ID36(y.res.BlockID) == x.blockID, "other-result", "%s: the block is %x, the node said %x", c.name, y.res.BlockID, x.blockID)
	if y.payload != nil {
		b, err := h.m.n.api.Encode(y.payload)
		k.Check(err == nil && bytes.Equal(b, want), "other-result", "%s: the returned payload is not what was sent", c.name)
	}
}

// mkSendPayload has a payload issued.
func mkSendPayload(h *httpRun, r *core.RNG) *call {
	x := h.issuer(r)
	x.seal(h, h.slot)
	p, body := h.payload(h.m.pool.Payload(r))
	var m nodeclient.BlockIssuerClient
	why := ""
	if r.Pct(5) {
		p, why = &iotago.TaggedData{Tag: bytes.Repeat([]byte{7}, 65)}, "tag-too-long"
	}
	c := &call{total: 2, own: true, safe: 2}
	c.wants = list(&want{method: "GET", path: "/api/blockissuer/v1/info"}, x.submission(h, body))
	c.serve = func(i int, q *seen) *answer {
		if i == 0 {
			return h.reply(q, x.info(), nil)
		}
		return h.reply(q, x.created(), nil)
	}
	c.do = func(ctx context.Context, cl *nodeclient.Client) (any, error) {
		defer x.giveUp(h, c, ctx)()
		var err error
		if m, err = cl.BlockIssuer(ctx); err != nil {
			return nil, err
		}
		res, err := m.SendPayload(ctx, p, iotago.CommitmentID(x.commit), x.workers...)
		return result(nil, res, err)
	}
	c.judge = func(res any, err error) { x.outcome(h, c, 3, nil, why, res, err) }
	if x.target > 64 || why != "" {
		c.total--
	}
	h.withPlugin("issuer", c)
	if r.Bool() {
		for k := r.Range(1, 3); k > 0; k-- {
			c.more = append(c.more, h.sendMore(r, &m))
		}
	}
	return c
}

// sendMore has another payload issued through the same client. The block issuer may have changed what it demands.
func (h *httpRun) sendMore(r *core.RNG, m *nodeclient.BlockIssuerClient) *call {
	x := h.issuer(r)
	x.patient = -1
	x.target = core.Pick(r, []int{min(x.target, 3), r.Intn(7), 65})
	x.seal(h, h.slot+uint32(r.Intn(2)))
	p, body := h.payload(h.m.pool.Payload(r))
	c := &call{name: "sendMore", total: 2, own: true, faultAt: -1, safe: 2}
	c.wants = list(&want{method: "GET", path: "/api/blockissuer/v1/info"}, x.submission(h, body))
	c.serve = func(i int, q *seen) *answer {
		if i == 0 {
			return h.reply(q, x.info(), nil)
		}
		return h.reply(q, x.created(), nil)
	}
	c.do = func(ctx context.Context, cl *nodeclient.Client) (any, error) {
		res, err := (*m).SendPayload(ctx, p, iotago.CommitmentID(x.commit), x.workers...)
		return result(nil, res, err)
	}
	c.judge = func(res any, err error) { x.outcome(h, c, 2, nil, "", res, err) }
	if x.target > 64 {
		c.total--
	}
	h.faulty(r, c, 15)
	return c
}

func (h *httpRun) payload(b *model.Block) (iotago.ApplicationPayload, []byte) {
	body := []byte{byte(b.PayloadKind)}
	if b.PayloadKind == model.PayloadTagged {
		w := &model.W{B: body}
		w.TaggedBody(b.Tagged)
		return &iotago.TaggedData{Tag: b.Tagged.Tag, Data: b.Tagged.Data}, w.B
	}
	return &iotago.CandidacyAnnouncement{}, body
}

func result(p iotago.ApplicationPayload, res *api.BlockCreatedResponse, err error) (any, error) {
	if err != nil && p == nil && res == nil {
		return nil, err
	}
	return &issued{p, res}, err
}

// mkSendTx has a transaction issued.
func mkSendTx(h *httpRun, r *core.RNG) *call {
	p := h.m.pool.Payment(r)
	if p == nil {
		return nil
	}
	x := h.issuer(r)
	slot, unset := p.Slot(), false
	if slot == 0 || r.Bool() {
		unset = true
		if r.Pct(30) {
			slot += uint32(r.Intn(4))
		}
		x.seal(h, slot)
		p.SetSlot(slot)
	} else {
		x.seal(h, r.U32())
	}
	why := ""
	if r.Pct(5) {
		x.account = nil
		why = "issuer-address"
		switch r.Intn(4) {
		case 0:
			x.addr = (&iotago.Ed25519Address{1}).Bech32(iotago.NetworkPrefix(h.hrp))
		case 1:
			x.addr = x.addr[:len(x.addr)-1]
		case 2:
			x.addr = ""
		case 3:
			x.addr = strings.Replace(x.addr, "1", "2", 1)
		}
	}
	early := why != ""
	var body []byte
	var inputs []model.OutputID
	if why == "" {
		s, y := p.Expect(*x.account, uint64(x.head.LatestCommitment.ReferenceManaCost))
		why = y
		if s != nil {
			body = model.EncSigned(s)
			inputs = s.Tx.Inputs
		}
	}
	head := h.json(x.head)
	full := 4
	steps := []*want{{method: "GET", path: "/api/blockissuer/v1/info"}, {method: "GET", path: corePath + "/blocks/issuance"}, x.submission(h, body)}
	if why != "" {
		steps = steps[:2]
	}
	c := &call{total: len(steps), own: true, safe: 3}
	c.wants = list(steps...)
	c.serve = func(i int, q *seen) *answer {
		switch i {
		case 0:
			return h.reply(q, x.info(), nil)
		case 1:
			return h.reply(q, head, nil)
		}
		return h.reply(q, x.created(), nil)
	}
	if early {
		c.total = 1
	} else if x.target > 64 && why == "" {
		c.total--
	}
	b := p.Builder(h.m.n.api)
	if unset {
		b.SetCreationSlot(0)
	}
	spare := b.Clone()
	send := func(c *call, b *builder.TransactionBuilder, ctx context.Context, cl *nodeclient.Client) (any, error) {
		defer x.giveUp(h, c, ctx)()
		m, err := cl.BlockIssuer(ctx)
		if err != nil {
			return nil, err
		}
		return result3(m.SendPayloadWithTransactionBuilder(ctx, b, p.Output(), x.workers...))
	}
	c.do = func(ctx context.Context, cl *nodeclient.Client) (any, error) { return send(c, b, ctx, cl) }
	c.judge = func(res any, err error) { x.outcome(h, c, full, body, why, res, err) }
	h.withPlugin("issuer", c)
	if r.Bool() {
		// the wallet tries again, with the same builder or with a copy made before
		again := b
		if r.Bool() {
			again = spare
		}
		t := &call{name: "sendTxAgain", total: c.total, own: true, faultAt: -1, serve: c.serve, first: true}
		t.do = func(ctx context.Context, cl *nodeclient.Client) (any, error) {
			x.patient = -1
			if again == b && len(c.reqs) > 2 {
				t.total = -1
			}
			if x.target > 7 && x.target <= 64 {
				x.target = 3
			}
			return send(t, again, ctx, cl)
		}
		t.wants = c.wants
		t.judge = func(res any, err error) {
			h.c.Count("again")
			if again == b && len(c.reqs) > 2 {
				// the builder was used already: the mana is distributed, what else it may do is to refuse
				if len(t.reqs) > 3 {
					s, _, err := model.DecSigned(t.reqs[3].body)
					h.c.Check(err == nil && fmt.Sprint(s.Tx.Inputs) == fmt.Sprint(inputs), "other-inputs", "a second attempt spends %v, the first spent %v", s, inputs)
				}
				return
			}
			x.outcome(h, t, full, body, why, res, err)
		}
		t.loose = func() bool { return again == b && len(c.reqs) > 2 }
		c.then = t
	}
	return c
}

func result3(p iotago.ApplicationPayload, res *api.BlockCreatedResponse, err error) (any, error) {
	return result(p, res, err)
}
