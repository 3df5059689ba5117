// Package store simulates what happens to objects between the moment a process makes them and the moment another
// process (or the same one after a crash) reads them: disks that tear, lose and rot data, links that truncate, extend,
// flip and mix it, clients that talk JSON. The objects come from a ledger history made by the reference model.
package store

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"

	"verif.local/sim/core"
	"verif.local/sim/ledger"
	"verif.local/sim/model"
)

// node is one process: everything it knows about the protocol comes from the bytes of the parameters.
type node struct {
	api  iotago.API
	prov iotago.APIProvider
}

func newNode(p *model.Params) *node {
	a := ledger.RealAPI(p)
	return &node{a, iotago.SingleVersionProvider(a)}
}

// kind of object.
type kind struct {
	name string
	dec  func(n *node, b []byte) (any, int, error)
	enc  func(n *node, v any) ([]byte, error)
	id   func(v any) (string, error)
	ptr  func() any      // where JSON is decoded into
	val  func(x any) any // the object in such a place
	resp bool
}

func hx(b []byte) string { return fmt.Sprintf("%x", b) }

func typed[T any](n *node, b []byte) (any, int, error) {
	v := new(T)
	c, err := n.api.Decode(b, v, serix.WithValidation())
	return v, c, err
}

func iface[T any](n *node, b []byte) (any, int, error) {
	var v T
	c, err := n.api.Decode(b, &v, serix.WithValidation())
	return v, c, err
}

func apiEnc(n *node, v any) ([]byte, error) { return n.api.Encode(v, serix.WithValidation()) }

func same(x any) any { return x }

func deref[T any](x any) any { return *(x.(*T)) }

var (
	kBlock = &kind{name: "block",
		dec: func(n *node, b []byte) (any, int, error) { return wrap3(iotago.BlockFromBytes(n.prov)(b)) },
		enc: apiEnc,
		id: func(v any) (string, error) {
			id, err := v.(*iotago.Block).ID()
			return hx(id[:]), err
		},
		ptr: func() any { return new(iotago.Block) }, val: same}
	kSigned = &kind{name: "signedtx", dec: typed[iotago.SignedTransaction], enc: apiEnc,
		id: func(v any) (string, error) {
			id, err := v.(*iotago.SignedTransaction).ID()
			return hx(id[:]), err
		},
		ptr: func() any { return new(iotago.SignedTransaction) }, val: same}
	kTx = &kind{name: "tx", dec: typed[iotago.Transaction], enc: apiEnc,
		id: func(v any) (string, error) {
			id, err := v.(*iotago.Transaction).ID()
			return hx(id[:]), err
		},
		ptr: func() any { return new(iotago.Transaction) }, val: same}
	kOutput = &kind{name: "output", dec: iface[iotago.TxEssenceOutput], enc: apiEnc,
		ptr: func() any { return new(iotago.TxEssenceOutput) }, val: deref[iotago.TxEssenceOutput]}
	kUnlock = &kind{name: "unlock", dec: iface[iotago.Unlock], enc: apiEnc,
		ptr: func() any { return new(iotago.Unlock) }, val: deref[iotago.Unlock]}
	kAddr = &kind{name: "address",
		dec: func(n *node, b []byte) (any, int, error) {
			a, c, err := iotago.AddressFromBytes(b)
			return a, c, err
		},
		enc: apiEnc,
		id:  func(v any) (string, error) { return "", nil },
		ptr: func() any { return new(iotago.Address) }, val: deref[iotago.Address]}
	kCommitment = &kind{name: "commitment", dec: typed[iotago.Commitment], enc: apiEnc,
		id: func(v any) (string, error) {
			id, err := v.(*iotago.Commitment).ID()
			return hx(id[:]), err
		},
		ptr: func() any { return new(iotago.Commitment) }, val: same}
	kParams = &kind{name: "params",
		dec: func(n *node, b []byte) (any, int, error) {
			p, c, err := iotago.ProtocolParametersFromBytes(b)
			return p, c, err
		},
		enc: func(n *node, v any) ([]byte, error) { return v.(iotago.ProtocolParameters).Bytes() },
		id: func(v any) (string, error) {
			h, err := v.(iotago.ProtocolParameters).Hash()
			return hx(h[:]), err
		},
		ptr: func() any { return new(iotago.ProtocolParameters) }, val: deref[iotago.ProtocolParameters]}
	kAttestation = &kind{name: "attestation",
		dec: func(n *node, b []byte) (any, int, error) { return wrap3(iotago.AttestationFromBytes(n.prov)(b)) },
		enc: apiEnc,
		id: func(v any) (string, error) {
			id, err := v.(*iotago.Attestation).BlockID()
			return hx(id[:]), err
		},
		ptr: func() any { return new(iotago.Attestation) }, val: same}
	kKey = &kind{name: "issuerkey",
		dec: func(n *node, b []byte) (any, int, error) {
			k, c, err := iotago.BlockIssuerKeyFromBytes(b)
			return k, c, err
		},
		enc: apiEnc,
		ptr: func() any { return new(iotago.BlockIssuerKey) }, val: deref[iotago.BlockIssuerKey]}
	kProof = &kind{name: "outputproof",
		dec: func(n *node, b []byte) (any, int, error) { return wrap3(iotago.OutputIDProofFromBytes(n.api)(b)) },
		enc: func(n *node, v any) ([]byte, error) { return v.(*iotago.OutputIDProof).Bytes() },
		ptr: func() any { return new(iotago.OutputIDProof) }, val: same}
)

func wrap3[T any](v T, n int, err error) (any, int, error) { return v, n, err }

func resp[T any]() *kind {
	var t T
	return &kind{name: fmt.Sprintf("%T", t)[4:], dec: typed[T], enc: apiEnc, ptr: func() any { return new(T) }, val: same, resp: true}
}

var responses = []*kind{
	resp[api.InfoResponse](), resp[api.NetworkHealthResponse](), resp[api.NetworkMetricsResponse](),
	resp[api.IssuanceBlockHeaderResponse](), resp[api.BlockCreatedResponse](), resp[api.BlockMetadataResponse](),
	resp[api.BlockWithMetadataResponse](), resp[api.TransactionMetadataResponse](), resp[api.OutputResponse](),
	resp[api.OutputWithID](), resp[api.OutputMetadata](), resp[api.OutputWithMetadataResponse](),
	resp[api.UTXOChangesResponse](), resp[api.UTXOChangesFullResponse](), resp[api.CongestionResponse](),
	resp[api.ValidatorResponse](), resp[api.ValidatorsResponse](), resp[api.ManaRewardsResponse](),
	resp[api.CommitteeResponse](), resp[api.IndexerResponse](), resp[api.AddPeerRequest](), resp[api.PeerInfo](),
	resp[api.PeersResponse](), resp[api.PruneDatabaseRequest](), resp[api.PruneDatabaseResponse](),
	resp[api.BlockIssuerInfo](), resp[api.HealthResponse](), resp[api.RoutesResponse](),
}

// object is a thing that is stored or sent.
type object struct {
	k    *kind
	v    any // built in the process that made it; nil if only bytes are known
	b    []byte
	id   string // by the model
	size int
}

// maker makes objects out of a ledger history.
type maker struct {
	c    *core.Ctx
	pool *ledger.Pool
	n    *node
	blk  []*model.Block
	txs  []*model.SignedTx
}

func newMaker(c *core.Ctx, pool *ledger.Pool) *maker {
	m := &maker{c: c, pool: pool, n: newNode(pool.P)}
	for _, b := range pool.Blocks {
		mb, _, err := model.DecBlock(b)
		if err != nil {
			panic("model block: " + err.Error())
		}
		m.blk = append(m.blk, mb)
		if mb.BodyType == model.BodyBasic && mb.PayloadKind == model.PayloadTx {
			m.txs = append(m.txs, mb.Tx)
		}
	}
	return m
}

func encAttestation(b *model.Block) []byte {
	h := model.Blake(model.EncBody(b))
	o := append(model.EncHeader(b), h[:]...)
	o = append(o, 0)
	o = append(o, b.Pub[:]...)
	return append(o, b.Sig[:]...)
}

// block draws a block, of the history or a fresh one.
func (m *maker) block(r *core.RNG) *model.Block {
	if len(m.blk) > 0 && r.Pct(70) {
		return core.Pick(r, m.blk)
	}
	b, _, err := model.DecBlock(m.pool.Fresh(r.Fork()))
	if err != nil {
		panic("model block: " + err.Error())
	}
	return b
}

func encUnlock(u *model.Unlock) []byte { w := &model.W{}; w.Unlock(u); return w.B }

// modelled draws an object whose bytes and identifiers the model knows.
func (m *maker) modelled(r *core.RNG) *object {
	o := &object{}
	switch r.Weighted(4, 4, 3, 5, 3, 3, 2, 1, 3, 1) {
	case 1:
		if len(m.txs) > 0 {
			t := core.Pick(r, m.txs)
			o.k, o.b = kSigned, model.EncSigned(t)
			id := model.SignedTxID(t)
			o.id = hx(id[:])
			return o
		}
	case 2:
		if len(m.txs) > 0 {
			t := core.Pick(r, m.txs)
			o.k, o.b = kTx, model.EncTx(t.Tx)
			id := model.TxID(t.Tx)
			o.id = hx(id[:])
			return o
		}
	case 3:
		c := core.Pick(r, m.pool.Coins)
		o.k, o.b = kOutput, model.EncOutput(c.O)
		return o
	case 4:
		if len(m.txs) > 0 {
			t := core.Pick(r, m.txs)
			o.k, o.b = kUnlock, encUnlock(&t.Unlocks[r.Intn(len(t.Unlocks))])
			return o
		}
	case 5:
		o.k, o.b = kAddr, model.EncAddr(m.pool.Addr(r))
		return o
	case 6:
		c := m.commitment(r)
		o.k, o.b = kCommitment, model.EncCommitment(c)
		id := model.CommitmentID(c)
		o.id = hx(id[:])
		return o
	case 7:
		o.k, o.b = kParams, m.pool.P.Bytes()
		h := model.Blake(o.b)
		o.id = hx(h[:])
		return o
	case 8:
		b := m.block(r)
		o.k, o.b = kAttestation, encAttestation(b)
		id := m.pool.P.BlockID(b)
		o.id = hx(id[:])
		return o
	case 9:
		h := r.Hash()
		o.k, o.b = kKey, append([]byte{0}, h[:]...)
		return o
	}
	b := m.block(r)
	o.k, o.b = kBlock, model.EncBlock(b)
	id := m.pool.P.BlockID(b)
	o.id = hx(id[:])
	return o
}

func (m *maker) commitment(r *core.RNG) *model.Commitment {
	if len(m.pool.Commits) > 0 && r.Pct(50) {
		return core.Pick(r, m.pool.Commits)
	}
	c := &model.Commitment{Version: m.pool.P.Version, Slot: r.U32(), Roots: r.Hash(), Weight: r.U64(), RMC: r.U64() & (1<<63 - 1)}
	copy(c.Prev[:], r.Bytes(36))
	return c
}

// real makes the real object of modelled bytes.
func (m *maker) real(o *object) any {
	v, _, err := o.k.dec(m.n, o.b)
	if err != nil {
		m.c.Fail("refused", "%s refused: %v\n%x", o.k.name, err, o.b)
	}
	return v
}

// response makes a random API object.
func (m *maker) response(r *core.RNG) *object {
	k := core.Pick(r, responses)
	v := k.ptr()
	m.fill(r, reflect.ValueOf(v).Elem(), "")
	return &object{k: k, v: v}
}

var (
	tBlock    = reflect.TypeOf((*iotago.Block)(nil))
	tCommit   = reflect.TypeOf((*iotago.Commitment)(nil))
	tOutput   = reflect.TypeOf((*iotago.TxEssenceOutput)(nil)).Elem()
	tParams   = reflect.TypeOf((*iotago.ProtocolParameters)(nil)).Elem()
	tProof    = reflect.TypeOf((*iotago.OutputIDProof)(nil))
	tTime     = reflect.TypeOf(time.Time{})
	tBState   = reflect.TypeOf(api.BlockState(0))
	tTState   = reflect.TypeOf(api.TransactionState(0))
	tBlockIDs = reflect.TypeOf(iotago.BlockIDs{})
	tHexOut   = reflect.TypeOf(iotago.HexOutputIDs{})
	tBigInt   = reflect.TypeOf((*big.Int)(nil))
	tAPI      = reflect.TypeOf((*iotago.API)(nil)).Elem()
)

var words = []string{"", "a", "iota", "node 1", "\"", "\\", "é", "日本", "\u2028", "<b>&", "0x", "null", "x\ty", "\u0000"}

// fill draws a value of any type.
func (m *maker) fill(r *core.RNG, v reflect.Value, tag string) {
	t := v.Type()
	switch t {
	case tBlock:
		v.Set(reflect.ValueOf(m.real(&object{k: kBlock, b: model.EncBlock(m.block(r))})))
		return
	case tCommit:
		v.Set(reflect.ValueOf(m.real(&object{k: kCommitment, b: model.EncCommitment(m.commitment(r))})))
		return
	case tOutput:
		v.Set(reflect.ValueOf(m.real(&object{k: kOutput, b: model.EncOutput(core.Pick(r, m.pool.Coins).O)})))
		return
	case tParams:
		v.Set(reflect.ValueOf(m.real(&object{k: kParams, b: m.pool.P.Bytes()})))
		return
	case tProof:
		outs, _, i := m.outputs(r)
		p, err := iotago.NewOutputIDProof(m.n.api, r.Hash(), iotago.SlotIndex(r.U32()), outs, uint16(i))
		if err != nil {
			m.c.Fail("proof", "no proof: %v", err)
		}
		v.Set(reflect.ValueOf(p))
		return
	case tTime:
		ns := int64(r.U64() >> 1)
		switch r.Intn(4) {
		case 0:
			ns = int64(r.U32()) * 1_000_000_000
		case 1:
			ns = 0
		}
		v.Set(reflect.ValueOf(time.Unix(0, ns).UTC()))
		return
	case tBState:
		v.SetUint(r.U64n(uint64(api.BlockStateOrphaned) + 1))
		return
	case tTState:
		v.SetUint(r.U64n(uint64(api.TransactionStateFailed) + 1))
		return
	case tBlockIDs:
		ids := iotago.BlockIDs{}
		for i := r.Range(1, 8); i > 0; i-- {
			ids = append(ids, iotago.BlockID(r.Bytes(36)))
		}
		ids.Sort()
		v.Set(reflect.ValueOf(ids))
		return
	case tHexOut:
		n := r.Intn(4)
		ids := iotago.HexOutputIDs{}
		for i := 0; i < n; i++ {
			ids = append(ids, iotago.HexOutputID("0x"+hx(r.Bytes(38))))
		}
		v.Set(reflect.ValueOf(ids))
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			tg, ok := f.Tag.Lookup("serix")
			if f.PkgPath != "" || !ok {
				continue
			}
			m.fill(r, v.Field(i), tg)
		}
	case reflect.Ptr:
		if contains(tag, "optional") && r.Bool() {
			return
		}
		v.Set(reflect.New(t.Elem()))
		m.fill(r, v.Elem(), "")
	case reflect.Slice:
		n := r.Intn(4)
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			m.fill(r, s.Index(i), "lenPrefix=uint8")
		}
		v.Set(s)
	case reflect.Array:
		if r.Pct(10) {
			return
		}
		reflect.Copy(v, reflect.ValueOf(r.Bytes(v.Len())).Convert(reflect.SliceOf(t.Elem())))
	case reflect.String:
		s := core.Pick(r, words)
		for r.Pct(40) && len(s) < 200 {
			s += core.Pick(r, words)
		}
		if r.Pct(3) {
			for len(s) < 255 {
				s += "z"
			}
			s = s[:255]
			for !utf8ok(s) {
				s = s[:len(s)-1]
			}
		}
		v.SetString(s)
	case reflect.Bool:
		v.SetBool(r.Bool())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(number(r) >> (64 - uint(t.Bits())))
	case reflect.Int64, reflect.Int32:
		x := int64(number(r))
		v.SetInt(x >> (64 - uint(t.Bits())))
	case reflect.Float64:
		v.SetFloat(float64(int64(r.U64())) / float64(1+r.Intn(1_000_000)))
	default:
		panic("no generator for " + t.String())
	}
}

func utf8ok(s string) bool {
	for _, c := range s {
		if c == 0xfffd {
			return false
		}
	}
	return true
}

func contains(tag, s string) bool {
	for i := 0; i+len(s) <= len(tag); i++ {
		if tag[i:i+len(s)] == s {
			return true
		}
	}
	return false
}

// number draws a 64 bit number whose high bits are often extreme.
func number(r *core.RNG) uint64 {
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2:
		return 1 << 63
	}
	return r.U64()
}

// outputs draws the outputs of a transaction and one of their positions.
func (m *maker) outputs(r *core.RNG) (iotago.TxEssenceOutputs, []*model.Output, int) {
	var mo []*model.Output
	if len(m.txs) > 0 && r.Pct(60) {
		mo = core.Pick(r, m.txs).Tx.Outputs
	} else {
		n := r.Range(1, 9)
		if r.Pct(5) {
			n = r.Range(10, 128)
		}
		for i := 0; i < n; i++ {
			mo = append(mo, core.Pick(r, m.pool.Coins).O)
		}
	}
	var os iotago.TxEssenceOutputs
	for _, x := range mo {
		os = append(os, m.real(&object{k: kOutput, b: model.EncOutput(x)}).(iotago.TxEssenceOutput))
	}
	return os, mo, r.Intn(len(mo))
}

// differ compares two objects and names the place where they differ.
func differ(a, b reflect.Value, path string) string {
	for a.Kind() == reflect.Interface && !a.IsNil() {
		a = a.Elem()
	}
	for b.Kind() == reflect.Interface && !b.IsNil() {
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return path + ": present on one side"
		}
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %s and %s", path, a.Type(), b.Type())
	}
	t := a.Type()
	switch {
	case t == tTime:
		if !a.Interface().(time.Time).Equal(b.Interface().(time.Time)) {
			return fmt.Sprintf("%s: %v and %v", path, a.Interface(), b.Interface())
		}
		return ""
	case t == tBigInt:
		x, y := a.Interface().(*big.Int), b.Interface().(*big.Int)
		if x == nil || y == nil || x.Cmp(y) != 0 {
			if x == y {
				return ""
			}
			return fmt.Sprintf("%s: %v and %v", path, x, y)
		}
		return ""
	case t.Implements(tAPI):
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": nil on one side"
			}
			return ""
		}
		return differ(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Name == "API" || f.Type == tAPI {
				continue
			}
			if d := differ(a.Field(i), b.Field(i), path+"."+f.Name); d != "" {
				return d
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: lengths %d and %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := differ(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: lengths %d and %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s: key %v missing", path, k)
			}
			if d := differ(a.MapIndex(k), y, fmt.Sprintf("%s[%v]", path, k)); d != "" {
				return d
			}
		}
	case reflect.Func, reflect.Chan:
	case reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%s: %v and %v", path, a.Float(), b.Float())
		}
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s: %v and %v", path, a.Interface(), b.Interface())
		}
	}
	return ""
}

func diff(a, b any) string { return differ(reflect.ValueOf(a), reflect.ValueOf(b), "") }

func ctxBG() context.Context { return context.Background() }
