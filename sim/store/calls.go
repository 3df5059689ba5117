package store

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/nodeclient"

	"verif.local/sim/conc"
	"verif.local/sim/core"
	"verif.local/sim/ledger"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

// Client is the world of node clients that talk to a node over a faulty network.
type Client struct{}

const corePath = "/api/core/v3"

var (
	allPlugins = []string{"core/v3", "management/v1", "indexer/v2", "mqtt/v2", "blockissuer/v1"}
	pluginName = map[string]string{"management": "management/v1", "indexer": "indexer/v2", "events": "mqtt/v2", "issuer": "blockissuer/v1"}
)

func (Client) Plan(r *core.RNG, prop, tier string) []core.Op {
	names := map[string][]string{
		"C01": core.SortedKeys(makers),
		"C06": {"sendPayload", "sendTx", "sendTx", "sendTx"},
		"C02": {"validatorsAll", "validatorsAll", "indexerAll", "indexerAll", "indexerAll", "indexerOutputs"},
		"C03": {"output", "output", "outputFull", "outputFull", "output", "indexerOne", "indexerOutputs", "block", "blockFull", "transaction", "includedBlock", "info", "commitment", "utxoFull", "indexerAll", "issuance", "validatorsAll", "new", "commitmentSlot", "congestion", "outputMeta"},
	}[prop]
	n := r.Range(4, 14)
	ops := []core.Op{{K: "schedule", S: r.U64()}}
	for i := 0; i < n; i++ {
		ops = append(ops, core.Op{K: core.Pick(r, names), S: r.U64()})
	}
	return ops
}

func (Client) Run(c *core.Ctx) {
	h := newHTTP(c)
	if h == nil {
		return
	}
	seed := c.Plan.Seed
	var calls []*call
	tasks := c.Rng.Range(1, 3)
	pct := 55
	lies := c.Prop == "C03"
	if c.Prop == "C02" {
		pct = 35
	}
	for i, op := range c.Plan.Ops {
		if op.K == "schedule" {
			seed = op.S
			continue
		}
		r := core.NewRNG(op.S)
		mk := makers[op.K]
		if mk == nil {
			continue
		}
		x := mk(h, r)
		if x == nil {
			continue
		}
		x.n, x.op = i, op
		if x.name == "" {
			x.name = op.K
		}
		if x.fault == fLie && lies && r.Pct(85) && c.On(fLie) {
			x.faultAt, x.met = -1, true
		} else {
			x.fault = fNone
			p := pct
			if lies {
				p = 40
			}
			h.faulty(r, x, p)
			if lies && x.fault != fNone {
				x.fault = core.Pick(r, []string{fFlip, fFlip, fFlip, fFlip, fDup, fEOF})
			}
		}
		calls = append(calls, x)
	}
	steps := int64(4_000_000)
	conc.Exec(c, seed, 0, steps, func(s *simrt.Sim) {
		// the client is made first
		x := h.newCall()
		x.do = func(context.Context, *nodeclient.Client) (any, error) {
			cl, err := nodeclient.New(h.base, h.options()...)
			h.client = cl
			return cl, err
		}
		h.run(x)
		h.judge(x)
		if h.client == nil {
			return
		}
		var ids []int
		for t := 0; t < tasks; t++ {
			ids = append(ids, simrt.GoNamed(fmt.Sprint("caller", t), func() {
				for i, x := range calls {
					if i%tasks == t {
						h.run(x)
					}
				}
			}))
		}
		for _, id := range ids {
			simrt.Join(id)
		}
		simrt.Fair()
		for k := 0; k < 60 && simrt.Alive() > 0; k++ {
			simrt.Yield()
		}
		if n := simrt.Alive(); n > 0 {
			c.Fail("leak", "%d goroutines of the client are left", n)
		}
	})
	if c.V == nil {
		for _, x := range calls {
			h.judge(x)
			if x.then != nil && x.then.ctx != nil {
				h.judge(x.then)
			}
			for _, y := range x.more {
				if y.ctx != nil {
					h.judge(y)
				}
			}
		}
	}
	if len(calls) > 0 {
		c.Sample(fmt.Sprintf("%s fault %q: %d requests, %v", calls[0].name, calls[0].fault, len(calls[0].reqs), calls[0].err))
	}
}

func newHTTP(c *core.Ctx) *httpRun {
	r := c.Rng
	n := 8
	if c.Prop == "C02" {
		n = 3
	}
	pool := ledger.Harvest(c, r.Fork(), r.Range(3, n))
	if len(pool.Coins) == 0 {
		return nil
	}
	h := &httpRun{c: c, m: newMaker(c, pool), w: &wire{}, hrp: pool.P.HRP}
	h.base = core.Pick(r, []string{"http://node.sim", "http://node.sim:14265", "https://node.sim/prefix/a", "http://10.0.0.1"})
	h.hook = r.Pct(20)
	if r.Pct(20) {
		h.user = url.UserPassword(core.Pick(r, []string{"u", "user name", "é:"}), core.Pick(r, []string{"", "p@ss/word", "x"}))
		if strings.Contains(h.user.Username(), ":") {
			h.user = url.UserPassword("é", "y:z")
		}
	}
	// This code knows one protocol version.
	h.vers = append(h.vers, version{pool.P.Version, 0, pool.P, newNode(pool.P)})
	h.slot = r.U32() >> uint(r.Range(0, 31))
	return h
}

// versionAt is the version of a slot.
func (h *httpRun) versionAt(slot uint32) byte {
	e := h.m.pool.P.Epoch(slot)
	v := h.vers[0].v
	for _, x := range h.vers {
		if x.start <= e {
			v = x.v
		}
	}
	return v
}

// info of the node.
func (h *httpRun) info(r *core.RNG, slot uint32) *api.InfoResponse {
	v := new(api.InfoResponse)
	h.m.fill(r, reflect.ValueOf(v).Elem(), "")
	v.ProtocolParameters = nil
	for _, x := range h.vers {
		v.ProtocolParameters = append(v.ProtocolParameters, &api.InfoResProtocolParameters{StartEpoch: iotago.EpochIndex(x.start), Parameters: x.n.api.ProtocolParameters()})
	}
	id := v.Status.LatestCommitmentID
	copy(id[32:], []byte{byte(slot), byte(slot >> 8), byte(slot >> 16), byte(slot >> 24)})
	v.Status.LatestCommitmentID = id
	return v
}

// newCall makes a client.
func (h *httpRun) newCall() *call {
	v := h.info(core.NewRNG(h.c.Plan.Seed), h.slot)
	b := h.json(v)
	c := &call{name: "new", noCtx: true, total: 1, faultAt: -1}
	c.wants = one(&want{method: "GET", path: corePath + "/info"})
	c.serve = func(i int, q *seen) *answer { return h.reply(q, b, nil) }
	c.judge = func(res any, err error) {
		h.c.Check(err == nil, "refused", "no client could be made: %v", err)
		h.versions(res.(*nodeclient.Client), h.slot)
	}
	return c
}

// versions compares a client's idea of the protocol versions with the node's.
func (h *httpRun) versions(cl *nodeclient.Client, slot uint32) {
	x := h.c
	x.Check(byte(cl.CommittedAPI().Version()) == h.versionAt(slot), "committed-version", "the client works with version %d at slot %d, it is %d", cl.CommittedAPI().Version(), slot, h.versionAt(slot))
	last := h.vers[len(h.vers)-1]
	x.Check(byte(cl.LatestAPI().Version()) == last.v, "latest-version", "the client's latest version is %d instead of %d", cl.LatestAPI().Version(), last.v)
	for _, v := range h.vers {
		a, err := cl.APIForVersion(iotago.Version(v.v))
		x.Check(err == nil && byte(a.Version()) == v.v, "version", "the client has no version %d: %v", v.v, err)
		b, err := a.ProtocolParameters().Bytes()
		x.Check(err == nil && bytes.Equal(b, v.p.Bytes()), "parameters", "the client's parameters of version %d are not the node's", v.v)
	}
	for e := uint32(0); e < last.start+2; e++ {
		s := h.m.pool.P.EpochStart(e)
		x.Check(byte(cl.APIForSlot(iotago.SlotIndex(s)).Version()) == h.versionAt(s), "slot-version", "the client's version of slot %d is %d instead of %d", s, cl.APIForSlot(iotago.SlotIndex(s)).Version(), h.versionAt(s))
	}
}

func one(w *want) func(int) *want {
	return func(i int) *want {
		if i > 0 {
			return nil
		}
		return w
	}
}

func list(ws ...*want) func(int) *want {
	return func(i int) *want {
		if i >= len(ws) {
			return nil
		}
		return ws[i]
	}
}

func (h *httpRun) json(v any) []byte {
	b, err := h.m.n.api.JSONEncode(v)
	if err != nil {
		h.c.FailFor([]string{"C01", "C02", "C03"}, "json", "%T has no JSON form: %v", v, err)
	}
	return b
}

// reply serves an object in the form the client accepts.
func (h *httpRun) reply(q *seen, txt, raw []byte) *answer {
	switch {
	case txt != nil && accepts(q, mimeJSON):
		return &answer{status: 200, body: txt, head: map[string]string{"Content-Type": mimeJSON}}
	case raw != nil && accepts(q, mimeRaw):
		return &answer{status: 200, body: raw, head: map[string]string{"Content-Type": mimeRaw}}
	}
	return &answer{status: 406, body: []byte(`{"error":{"code":"406","message":"not acceptable"}}`)}
}

// jsonCall is a call that is answered with a JSON object.
func (h *httpRun) jsonCall(path string, q url.Values, truth any, do func(ctx context.Context, cl *nodeclient.Client) (any, error)) *call {
	c := &call{total: 1, do: do}
	c.wants = one(&want{method: "GET", path: path, query: q})
	txt := h.json(truth)
	raw, _ := h.m.n.api.Encode(truth)
	if raw == nil {
		raw = []byte{}
	}
	c.serve = func(i int, q *seen) *answer { return h.reply(q, txt, raw) }
	c.judge = func(res any, err error) { h.same(c, truth, res, err) }
	return c
}

func (h *httpRun) same(c *call, truth, res any, err error) {
	if err != nil {
		h.c.Fail("refused", "%s: a complete answer gives the error %v\n%s", c.name, err, c.sent)
	}
	if d := diff(truth, res); d != "" {
		h.c.Fail("other-result", "%s: the result is not what the node sent: %s\n%s", c.name, d, c.sent)
	}
}

func ret[T any](v T, err error) (any, error) {
	return v, err
}

func filled[T any](h *httpRun, r *core.RNG) *T {
	v := new(T)
	h.m.fill(r, reflect.ValueOf(v).Elem(), "")
	return v
}

// blocks of any of the node's versions.
func (h *httpRun) block(r *core.RNG) (*model.Block, version) {
	v := h.vers[0]
	b := h.m.block(r)
	if r.Pct(40) {
		v = core.Pick(r, h.vers)
		b = h.m.pool.FreshOf(r.Fork(), v.v)
	}
	return b, v
}

func blockPath(id []byte) string { return corePath + "/blocks/0x" + hx(id) }

// checkBlock compares a block with what the node has.
func (h *httpRun) checkBlock(c *call, b *model.Block, v version, res any, err error) {
	x := h.c
	if err != nil {
		x.Fail("refused", "%s: a complete answer gives the error %v\n%x", c.name, err, c.sent)
	}
	blk := res.(*iotago.Block)
	h.decodedBlock(c, blk, model.EncBlock(b))
	id, err := blk.ID()
	want := v.p.BlockID(b)
	x.Check(err == nil && bytes.Equal(id[:], want[:]), "other-result", "%s: the block's ID is %x (%v), it should be %x", c.name, id[:], err, want[:])
}

// decodedBlock checks that a block is what some bytes say, under the version they declare.
func (h *httpRun) decodedBlock(c *call, blk *iotago.Block, arrived []byte) {
	x := h.c
	x.Check(blk != nil && blk.API != nil && len(arrived) > 0, "no-block", "%s: no block and no error", c.name)
	x.Check(byte(blk.API.Version()) == arrived[0] && byte(blk.Header.ProtocolVersion) == arrived[0], "block-version", "%s: a block of version %d was decoded with version %d", c.name, arrived[0], blk.API.Version())
	known := false
	for _, v := range h.vers {
		known = known || v.v == arrived[0]
	}
	x.Check(known, "block-version", "%s: a block of the unknown version %d was decoded", c.name, arrived[0])
	b, err := blk.API.Encode(blk)
	x.Check(err == nil && bytes.HasPrefix(arrived, b), "other-result", "%s: the block encodes to (%v)\n%x\nthe node sent\n%x", c.name, err, b, arrived)
}

// An output and what the node says about it.
type known struct {
	id    model.OutputID
	out   []byte // the output
	tx    *model.Tx
	i     int
	proof []byte
}

// output draws an output of a transaction of the history.
func (h *httpRun) output(r *core.RNG) *known {
	if len(h.m.txs) == 0 {
		return nil
	}
	t := core.Pick(r, h.m.txs).Tx
	return h.outputOf(t, r.Intn(len(t.Outputs)))
}

func (h *httpRun) outputOf(t *model.Tx, i int) *known {
	k := &known{tx: t, i: i, out: model.EncOutput(t.Outputs[i])}
	k.id = model.OutID(model.TxID(t), uint16(i))
	k.proof = encProof(t, i)
	return k
}

func encProof(t *model.Tx, i int) []byte {
	var leaves [][]byte
	for _, o := range t.Outputs {
		leaves = append(leaves, model.EncOutput(o))
	}
	cm := model.Blake(model.EncEssence(t))
	s := t.CreationSlot
	b := []byte{byte(s), byte(s >> 8), byte(s >> 16), byte(s >> 24), byte(i), byte(i >> 8)}
	b = append(b, cm[:]...)
	return append(b, makeTree(leaves, i).enc()...)
}

func (k *known) body() []byte { return append(append([]byte(nil), k.out...), k.proof...) }

// lie makes a node's false answer about an output.
func (h *httpRun) lieAbout(r *core.RNG, k *known) []byte {
	other := h.output(r)
	if r.Pct(50) {
		other = h.outputOf(k.tx, r.Intn(len(k.tx.Outputs)))
	}
	foreign := model.EncOutput(core.Pick(r, h.m.pool.Coins).O)
	join := func(a, b []byte) []byte { return append(append([]byte(nil), a...), b...) }
	var leaves [][]byte
	for _, o := range k.tx.Outputs {
		leaves = append(leaves, model.EncOutput(o))
	}
	honest := makeTree(leaves, k.i)
	switch r.Intn(9) {
	case 0: // another output with its own proof
		return other.body()
	case 1: // another output with this one's proof
		return join(other.out, k.proof)
	case 2:
		return join(foreign, k.proof)
	case 3: // this one with another's proof
		return join(k.out, other.proof)
	case 4: // altered fields
		o := model.CloneOutput(k.tx.Outputs[k.i])
		switch r.Intn(3) {
		case 0:
			o.Amount += 1 + r.U64n(1000)
		case 1:
			o.Mana++
		case 2:
			o.Amount ^= 1 << uint(r.Intn(40))
		}
		return join(model.EncOutput(o), k.proof)
	case 5: // the other's proof with this one's index
		p := append([]byte(nil), other.proof...)
		p[4], p[5] = k.proof[4], k.proof[5]
		return join(other.out, p)
	case 6: // a proof of another tree
		ls := [][]byte{foreign, leaves[0]}
		i := r.Intn(2)
		p := append(append([]byte(nil), k.proof[:38]...), makeTree(ls, i).enc()...)
		return join(ls[i], p)
	case 7: // an altered proof
		t := attack(r, honest, []*tree{makeTree(leaves, r.Intn(len(leaves))), makeTree([][]byte{foreign, leaves[0]}, 0)}, [][]byte{foreign, other.out})
		out := k.out
		if r.Bool() {
			out = foreign
		}
		return join(out, append(append([]byte(nil), k.proof[:38]...), t.enc()...))
	}
	return ledger.Damage(r, k.body())
}

// judgeOutput decides about an output that a client got for an ID.
func (h *httpRun) judgeOutput(c *call, k *known, out iotago.Output) {
	x := h.c
	if out == nil || reflect.ValueOf(out).IsNil() {
		x.Fail("no-output", "%s: no output and no error", c.name)
	}
	b, err := h.m.n.api.Encode(out)
	if err == nil && bytes.Equal(b, k.out) {
		x.Count("lie-harmless")
		return
	}
	for j, o := range k.tx.Outputs {
		if j != k.i && bytes.Equal(model.EncOutput(o), b) {
			h.indexTold(c, k, b)
			if x.Prop == "C03" {
				x.Finding("output-index", "wrong-output", "%s: output %d of the transaction was passed off as output %d\n%x", c.name, j, k.i, c.sent)
			}
			return
		}
	}
	x.Fail("wrong-output", "%s: the node passed off\n%x\nas output %x, which is\n%x\nthe answer was\n%x", c.name, b, k.id, k.out, c.sent)
}

// indexTold makes sure that the node claimed the right index for another output of the same transaction:
// only then the client could not know better.
func (h *httpRun) indexTold(c *call, k *known, out []byte) {
	for i := len(c.reqs) - 1; i >= 0; i-- {
		if !strings.HasSuffix(c.reqs[i].path, outHex(k.id)) && !strings.Contains(c.reqs[i].path, outHex(k.id)+"/") || i >= len(c.bodies) {
			continue
		}
		b := c.bodies[i].b
		if len(b) < len(out)+6 || !bytes.HasPrefix(b, out) {
			break
		}
		if int(b[len(out)+4])|int(b[len(out)+5])<<8 == k.i {
			return
		}
		break
	}
	h.c.Fail("wrong-output", "%s: the node passed off another output of the same transaction as output %x:\n%x", c.name, k.id, out)
}

var queryKinds = map[string]string{"outputs": "/outputs", "basic": "/outputs/basic", "account": "/outputs/account", "anchor": "/outputs/anchor", "foundry": "/outputs/foundry", "nft": "/outputs/nft", "delegation": "/outputs/delegation"}

// query draws an indexer query and the parameters it stands for.
func (h *httpRun) query(r *core.RNG) (string, nodeclient.IndexerQuery, url.Values) {
	q := url.Values{}
	str := func(name string, set func(string)) {
		if r.Pct(25) {
			v := core.Pick(r, []string{"rms1abc", "0x01", "x y", "a&b=c", "é", "%41+"})
			q.Set(name, v)
			set(v)
		}
	}
	slot := func(name string, set func(iotago.SlotIndex)) {
		if r.Pct(25) {
			v := r.U32()>>uint(r.Intn(32)) | 1
			q.Set(name, strconv.FormatUint(uint64(v), 10))
			set(iotago.SlotIndex(v))
		}
	}
	flag := func(name string, set func(*bool)) {
		if r.Pct(25) {
			v := r.Bool()
			q.Set(name, strconv.FormatBool(v))
			set(&v)
		}
	}
	cursor := func(p *api.IndexerCursorParams) {
		if r.Pct(50) {
			p.PageSize = core.Pick(r, []int{1, 2, r.Range(1, 1000)})
			q.Set("pageSize", strconv.Itoa(p.PageSize))
		}
	}
	created := func(p *api.IndexerCreationParams) {
		slot("createdBefore", func(s iotago.SlotIndex) { p.CreatedBefore = s })
		slot("createdAfter", func(s iotago.SlotIndex) { p.CreatedAfter = s })
	}
	unlock := func(p *api.IndexerUnlockableByAddressParams) {
		str("unlockableByAddress", func(s string) { p.UnlockableByAddressBech32 = s })
	}
	native := func(p *api.IndexerNativeTokenParams) {
		flag("hasNativeToken", func(b *bool) { p.HasNativeToken = b })
		str("nativeToken", func(s string) { p.NativeToken = s })
	}
	timelock := func(p *api.IndexerTimelockParams) {
		flag("hasTimelock", func(b *bool) { p.HasTimelock = b })
		slot("timelockedBefore", func(s iotago.SlotIndex) { p.TimelockedBefore = s })
		slot("timelockedAfter", func(s iotago.SlotIndex) { p.TimelockedAfter = s })
	}
	expire := func(p *api.IndexerExpirationParams) {
		flag("hasExpiration", func(b *bool) { p.HasExpiration = b })
		slot("expiresBefore", func(s iotago.SlotIndex) { p.ExpiresBefore = s })
		slot("expiresAfter", func(s iotago.SlotIndex) { p.ExpiresAfter = s })
		str("expirationReturnAddress", func(s string) { p.ExpirationReturnAddressBech32 = s })
	}
	deposit := func(p *api.IndexerStorageDepositParams) {
		flag("hasStorageDepositReturn", func(b *bool) { p.HasStorageDepositReturn = b })
		str("storageDepositReturnAddress", func(s string) { p.StorageDepositReturnAddressBech32 = s })
	}
	k := core.Pick(r, core.SortedKeys(queryKinds))
	switch k {
	case "outputs":
		x := &api.OutputsQuery{}
		cursor(&x.IndexerCursorParams)
		native(&x.IndexerNativeTokenParams)
		created(&x.IndexerCreationParams)
		unlock(&x.IndexerUnlockableByAddressParams)
		return k, x, q
	case "basic":
		x := &api.BasicOutputsQuery{}
		cursor(&x.IndexerCursorParams)
		native(&x.IndexerNativeTokenParams)
		created(&x.IndexerCreationParams)
		unlock(&x.IndexerUnlockableByAddressParams)
		timelock(&x.IndexerTimelockParams)
		expire(&x.IndexerExpirationParams)
		deposit(&x.IndexerStorageDepositParams)
		str("address", func(s string) { x.AddressBech32 = s })
		str("sender", func(s string) { x.SenderBech32 = s })
		str("tag", func(s string) { x.Tag = s })
		return k, x, q
	case "account":
		x := &api.AccountsQuery{}
		cursor(&x.IndexerCursorParams)
		created(&x.IndexerCreationParams)
		unlock(&x.IndexerUnlockableByAddressParams)
		str("address", func(s string) { x.AddressBech32 = s })
		str("sender", func(s string) { x.SenderBech32 = s })
		str("issuer", func(s string) { x.IssuerBech32 = s })
		return k, x, q
	case "anchor":
		x := &api.AnchorsQuery{}
		cursor(&x.IndexerCursorParams)
		created(&x.IndexerCreationParams)
		unlock(&x.IndexerUnlockableByAddressParams)
		str("stateController", func(s string) { x.StateControllerBech32 = s })
		str("governor", func(s string) { x.GovernorBech32 = s })
		str("issuer", func(s string) { x.IssuerBech32 = s })
		return k, x, q
	case "foundry":
		x := &api.FoundriesQuery{}
		cursor(&x.IndexerCursorParams)
		created(&x.IndexerCreationParams)
		native(&x.IndexerNativeTokenParams)
		return k, x, q
	case "nft":
		x := &api.NFTsQuery{}
		cursor(&x.IndexerCursorParams)
		created(&x.IndexerCreationParams)
		unlock(&x.IndexerUnlockableByAddressParams)
		timelock(&x.IndexerTimelockParams)
		expire(&x.IndexerExpirationParams)
		deposit(&x.IndexerStorageDepositParams)
		str("address", func(s string) { x.AddressBech32 = s })
		str("sender", func(s string) { x.SenderBech32 = s })
		str("issuer", func(s string) { x.IssuerBech32 = s })
		str("tag", func(s string) { x.Tag = s })
		return k, x, q
	}
	x := &api.DelegationOutputsQuery{}
	cursor(&x.IndexerCursorParams)
	created(&x.IndexerCreationParams)
	str("address", func(s string) { x.AddressBech32 = s })
	str("validator", func(s string) { x.ValidatorBech32 = s })
	return k, x, q
}

// pages cuts a list the way the node serves it.
type pages struct {
	sizes   []int
	cursors []string // of page i+1
}

func cut(r *core.RNG, n int, empty bool) *pages {
	p := &pages{}
	k := r.Range(1, 4)
	for left := n; ; {
		s := min(left, k)
		if r.Pct(30) {
			s = min(left, r.Range(1, 5))
		}
		if empty && r.Pct(10) {
			s = 0
		}
		p.sizes = append(p.sizes, s)
		left -= s
		if left == 0 && !(empty && r.Pct(25)) {
			break
		}
		cur := core.Pick(r, []string{"", "&", "=", "+ ", "%2B", "é", "/?#"}) + strconv.Itoa(len(p.sizes)) + hx(r.Bytes(r.Intn(5)))
		p.cursors = append(p.cursors, cur)
	}
	return p
}

// find the page a request asks for.
func (p *pages) find(cursor string) int {
	if cursor == "" {
		return 0
	}
	for i, c := range p.cursors {
		if c == cursor {
			return i + 1
		}
	}
	return -1
}

func (p *pages) start(i int) (s int) {
	for k := 0; k < i; k++ {
		s += p.sizes[k]
	}
	return
}

func (p *pages) cursor(i int) string {
	if i < len(p.cursors) {
		return p.cursors[i]
	}
	return ""
}

func notFound() *answer {
	return &answer{status: 404, body: []byte(`{"error":{"code":"404","message":"no such page"}}`)}
}

var errNoPlugin = map[string]error{"management": nodeclient.ErrManagementPluginNotAvailable, "indexer": nodeclient.ErrIndexerPluginNotAvailable, "events": nodeclient.ErrMQTTPluginNotAvailable, "issuer": nodeclient.ErrBlockIssuerPluginNotAvailable}

// withPlugin puts the question whether the node has a plugin before a call.
func (h *httpRun) withPlugin(name string, c *call) *call {
	w, s, t := c.wants, c.serve, c.total
	c.first = true
	c.wants = func(i int) *want {
		if i == 0 {
			return &want{method: "GET", path: "/api/routes"}
		}
		return w(i - 1)
	}
	c.serve = func(i int, q *seen) *answer {
		if i == 0 {
			return h.routes(allPlugins)
		}
		return s(i-1, q)
	}
	if t >= 0 {
		c.total = t + 1
	}
	return c
}

// item IDs of a page, as JSON.
func (h *httpRun) page(r *core.RNG, ids []string, cursor string) []byte {
	m := map[string]any{"committedSlot": r.U32() >> 1, "pageSize": 1 + r.Intn(1000), "items": append([]string{}, ids...)}
	if cursor != "" {
		m["cursor"] = cursor
	}
	b, _ := json.Marshal(m)
	return b
}

func outHex(id model.OutputID) string { return "0x" + hx(id[:]) }

func withRaw(n *node, v any) []byte {
	b, err := n.api.Encode(v, serix.WithValidation())
	if err != nil {
		return nil
	}
	return b
}

func get(h *httpRun, path string, f func(c *call)) *call {
	c := &call{total: 1}
	c.wants = one(&want{method: http.MethodGet, path: path})
	f(c)
	return c
}
