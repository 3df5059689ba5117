package store

import (
	"crypto/ed25519"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/builder"
	"github.com/iotaledger/iota.go/v4/vm"
	"github.com/iotaledger/iota.go/v4/vm/nova"

	"verif.local/sim/conc"
	"verif.local/sim/core"
	"verif.local/sim/ledger"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

// Share is the world of a process whose threads use the same API, virtual machine, signer and decoded objects.
type Share struct{}

func (Share) Plan(r *core.RNG, prop, tier string) []core.Op {
	ops := []core.Op{{K: "schedule", S: r.U64()}}
	// often threads do the same things with the same objects
	few := r.Bool()
	palette := []uint64{r.U64(), r.U64(), r.U64()}[:r.Range(1, 3)]
	for t := r.Range(2, 4); t > 0; t-- {
		for k := r.Range(1, 5); k > 0; k-- {
			s := r.U64()
			if few {
				s = core.Pick(r, palette)
			}
			ops = append(ops, core.Op{K: fmt.Sprint("thread", t), S: s})
		}
	}
	return ops
}

// shared is a process. The objects of the reference process are decoded anew for every use.
type shared struct {
	p       *model.Params
	n       *node
	vm      vm.VirtualMachine
	params  iotago.ProtocolParameters
	signer  iotago.AddressSigner
	prov    *iotago.EpochBasedProvider
	raw     []*object
	cases   []*ledger.Case
	objs    []any
	preps   []*ledger.Prepared
	builds  []*builder.TransactionBuilder
	again   bool
	tracked map[string]int64
}

func (x *shared) decode(i int) any {
	v, _, err := x.raw[i].k.dec(x.n, x.raw[i].b)
	if err != nil {
		return nil
	}
	return v
}

func (x *shared) obj(i int) any {
	if x.again {
		return x.decode(i)
	}
	return x.objs[i]
}

func (x *shared) prep(i int) *ledger.Prepared {
	if x.again {
		return x.cases[i].Prepare(x.p, x.n.api, x.vm)
	}
	return x.preps[i]
}

func (x *shared) build(i int) *builder.TransactionBuilder {
	if x.again {
		if q := x.prep(i); q.Ready() {
			return q.Builder(x.signer)
		}
		return nil
	}
	return x.builds[i]
}

func bootShared(p *model.Params, raw []*object, cases []*ledger.Case, again bool) *shared {
	x := &shared{p: p, n: newNode(p), vm: nova.NewVirtualMachine(), raw: raw, cases: cases, again: again}
	// the parameters' caches are cold
	pp, _, err := iotago.ProtocolParametersFromBytes(p.Bytes())
	if err != nil {
		panic("protocol parameters: " + err.Error())
	}
	x.params = pp
	x.prov = iotago.NewEpochBasedProvider()
	x.prov.AddProtocolParametersAtEpoch(pp, 0)
	var keys []iotago.AddressKeys
	for i, k := range ledger.Keys() {
		a := iotago.Ed25519AddressFromPubKey(k.Public().(ed25519.PublicKey))
		keys = append(keys, iotago.NewAddressKeysForEd25519Address(a, k))
		if i%2 == 0 {
			keys = append(keys, iotago.NewAddressKeysForImplicitAccountCreationAddress(iotago.ImplicitAccountCreationAddressFromPubKey(k.Public().(ed25519.PublicKey)), k))
		}
	}
	x.signer = iotago.NewInMemoryAddressSigner(keys...)
	if again {
		return x
	}
	for i := range raw {
		v := x.decode(i)
		if p, ok := v.(iotago.ProtocolParameters); ok {
			// the encoder copies an object, so parameters can only be encoded as they are when their caches are filled
			p.NetworkID()
			p.Hash()
		}
		x.objs = append(x.objs, v)
	}
	for _, k := range cases {
		q := k.Prepare(p, x.n.api, x.vm)
		x.preps = append(x.preps, q)
		var b *builder.TransactionBuilder
		if q.Ready() {
			b = q.Builder(x.signer)
		}
		x.builds = append(x.builds, b)
	}
	return x
}

func sum(b []byte, err error) string {
	if err != nil {
		return "error"
	}
	h := model.Blake(b)
	return fmt.Sprintf("%x", h[:8])
}

// sumJSON does not depend on the order of keys, which is unspecified.
func sumJSON(b []byte, err error) string {
	var v any
	if err == nil {
		err = json.Unmarshal(b, &v)
	}
	if err != nil {
		return "error"
	}
	return sum(json.Marshal(v))
}

func errOr(err error, s ...any) string {
	if err != nil {
		return "error"
	}
	return fmt.Sprint(s...)
}

// parts lists the objects in v for which ok holds, v included, in a fixed order.
func parts(v reflect.Value, ok func(reflect.Value) bool, to *[]reflect.Value) {
	if len(*to) > 200 {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() && v.Type() != tAPI {
			parts(v.Elem(), ok, to)
		}
		return
	case reflect.Ptr:
		if v.IsNil() || v.Type() == tBigInt || v.Type().Implements(tAPI) {
			return
		}
	}
	if ok(v) {
		*to = append(*to, v)
	}
	switch v.Kind() {
	case reflect.Ptr:
		if e := v.Elem(); e.Kind() == reflect.Struct {
			for i := 0; i < e.NumField(); i++ {
				if f := e.Type().Field(i); f.PkgPath == "" && f.Type != tAPI && f.Type != tTime {
					parts(e.Field(i), ok, to)
				}
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" && f.Type != tAPI && f.Type != tTime {
				parts(v.Field(i), ok, to)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			parts(v.Index(i), ok, to)
		}
	}
}

func cloner(v reflect.Value) reflect.Value {
	if !v.CanInterface() {
		return reflect.Value{}
	}
	m := v.MethodByName("Clone")
	if m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 {
		return m
	}
	return reflect.Value{}
}

// wreck changes everything that can be reached from v through exported fields, in place.
func wreck(v reflect.Value) {
	t := v.Type()
	if t == tAPI || t.Implements(tAPI) {
		return
	}
	switch {
	case t == tBigInt:
		if x := v.Interface().(*big.Int); x != nil {
			if w := x.Bits(); len(w) > 0 {
				w[0] ^= 2
			}
			x.Add(x, big.NewInt(1))
		}
		return
	case t == tTime:
		if v.CanSet() {
			v.Set(reflect.ValueOf(time.Unix(1, 1)))
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			wreck(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				wreck(v.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			wreck(v.Index(i))
		}
		if v.Kind() == reflect.Slice && v.Len() > 1 {
			a, b := reflect.New(t.Elem()).Elem(), reflect.New(t.Elem()).Elem()
			a.Set(v.Index(0))
			b.Set(v.Index(v.Len() - 1))
			v.Index(0).Set(b)
			v.Index(v.Len() - 1).Set(a)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			wreck(v.MapIndex(k))
		}
		for i, k := range v.MapKeys() {
			if i == 0 {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 1)
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 1)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "x")
		}
	}
}

// shareOp is one use of the process by a thread. Its result depends on nothing but the objects and r.
type shareOp struct {
	name string
	do   func(x *shared, r *core.RNG) string
}

func onObj(f func(x *shared, r *core.RNG, o *object, v any) string) func(x *shared, r *core.RNG) string {
	return func(x *shared, r *core.RNG) string {
		i := 0
		if r.Pct(65) {
			i = r.Intn(len(x.raw))
		}
		v := x.obj(i)
		if v == nil {
			return "refused"
		}
		return x.raw[i].k.name + " " + f(x, r, x.raw[i], v)
	}
}

func onCase(f func(x *shared, r *core.RNG, q *ledger.Prepared) string) func(x *shared, r *core.RNG) string {
	return func(x *shared, r *core.RNG) string {
		if len(x.cases) == 0 {
			return "none"
		}
		q := x.prep(r.Intn(len(x.cases)))
		if !q.Ready() {
			return "not ready"
		}
		return f(x, r, q)
	}
}

// find gives a part of an object that has a type.
func find[T any](r *core.RNG, v any) (t T, ok bool) {
	var ps []reflect.Value
	parts(reflect.ValueOf(v), func(v reflect.Value) bool {
		if !v.CanInterface() {
			return false
		}
		_, ok := v.Interface().(T)
		return ok
	}, &ps)
	if len(ps) == 0 {
		return t, false
	}
	return core.Pick(r, ps).Interface().(T), true
}

var shareOps = []shareOp{
	{"encode", onObj(func(x *shared, r *core.RNG, o *object, v any) string { return sum(o.k.enc(x.n, v)) })},
	{"encode", onObj(func(x *shared, r *core.RNG, o *object, v any) string { return sum(o.k.enc(x.n, v)) })},
	{"encode", onObj(func(x *shared, r *core.RNG, o *object, v any) string { return sum(x.n.api.Encode(v)) })},
	{"json", onObj(func(x *shared, r *core.RNG, o *object, v any) string { return sumJSON(x.n.api.JSONEncode(v)) })},
	{"decode", func(x *shared, r *core.RNG) string {
		o := x.raw[r.Intn(len(x.raw))]
		v, n, err := o.k.dec(x.n, o.b)
		if err != nil {
			return "error"
		}
		return fmt.Sprint(n, sum(o.k.enc(x.n, v)))
	}},
	{"decode damaged", func(x *shared, r *core.RNG) string {
		o := x.raw[r.Intn(len(x.raw))]
		_, n, err := o.k.dec(x.n, ledger.Damage(r, append([]byte(nil), o.b...)))
		return errOr(err, n)
	}},
	{"json round trip", onObj(func(x *shared, r *core.RNG, o *object, v any) string {
		j, err := x.n.api.JSONEncode(v)
		if err != nil {
			return "error"
		}
		w := o.k.ptr()
		if err := x.n.api.JSONDecode(j, w, serix.WithValidation()); err != nil {
			return "error"
		}
		return sum(o.k.enc(x.n, o.k.val(w)))
	})},
	{"id", onObj(func(x *shared, r *core.RNG, o *object, v any) string {
		if o.k.id == nil {
			return ""
		}
		id, err := o.k.id(v)
		return errOr(err, id)
	})},
	{"api object", func(x *shared, r *core.RNG) string {
		v := &api.CongestionResponse{Slot: iotago.SlotIndex(r.U32()), Ready: r.Bool(), ReferenceManaCost: iotago.Mana(r.U64()), BlockIssuanceCredits: iotago.BlockIssuanceCredits(r.U32())}
		j, err := x.n.api.JSONEncode(v)
		if err != nil || !json.Valid(j) {
			return "error"
		}
		w := new(api.CongestionResponse)
		err = x.n.api.JSONDecode(j, w)
		return errOr(err, *w)
	}},
	{"block", onObj(func(x *shared, r *core.RNG, o *object, v any) string {
		b, ok := v.(*iotago.Block)
		if !ok {
			return ""
		}
		switch r.Intn(9) {
		case 0:
			w, err := b.WorkScore()
			return errOr(err, w)
		case 1:
			m, err := b.ManaCost(3)
			return errOr(err, m)
		case 2:
			ok, err := b.VerifySignature()
			return errOr(err, ok)
		case 3:
			return fmt.Sprint(b.Parents())
		case 4:
			n := 0
			s := ""
			b.ForEachParent(func(p iotago.Parent) { n++; s += p.ID.ToHex()[:8] })
			return fmt.Sprint(n, s, len(b.ParentsWithType()))
		case 5:
			return sum(b.SigningMessage())
		case 6:
			return fmt.Sprint(b.Slot(), b.Size())
		case 7:
			h, err := b.Body.Hash()
			return errOr(err, h.ToHex())
		}
		s, err := b.Sign(x.signer, iotago.Ed25519AddressFromPubKey(ledger.Keys()[0].Public().(ed25519.PublicKey)))
		if err != nil {
			return "error"
		}
		return sum(x.n.api.Encode(s))
	})},
	{"transaction", onCase(func(x *shared, r *core.RNG, q *ledger.Prepared) string {
		t, api := q.V.Tx.Transaction, x.n.api
		switch r.Intn(10) {
		case 0:
			return errOr(t.SyntacticallyValidate(api), "ok")
		case 1:
			w, err := t.WorkScore(api.ProtocolParameters().WorkScoreParameters())
			return errOr(err, w)
		case 2:
			s, err := t.OutputsSet()
			return errOr(err, len(s))
		case 3:
			return sum(t.SigningMessage())
		case 4:
			c, err := t.TransactionCommitment()
			return errOr(err, c.ToHex())
		case 5:
			c, err := t.OutputCommitment()
			return errOr(err, c.ToHex())
		case 6:
			return fmt.Sprint(len(t.Inputs()), len(t.BICInputs()), len(t.RewardInputs()), t.CommitmentInput() != nil, t.Size(), q.V.Tx.Size())
		case 7:
			i := uint16(r.Intn(len(t.Outputs)))
			p, err := iotago.OutputIDProofFromTransaction(t, i)
			if err != nil {
				return "error"
			}
			id, err := p.OutputID(t.Outputs[i])
			return errOr(err, id.ToHex())
		case 8:
			k := ledger.Keys()[r.Intn(len(ledger.Keys()))]
			s, err := t.Sign(iotago.NewAddressKeysForEd25519Address(iotago.Ed25519AddressFromPubKey(k.Public().(ed25519.PublicKey)), k))
			if err != nil {
				return "error"
			}
			return sum(api.Encode(s[0]))
		}
		w, err := q.V.Tx.WorkScore(api.ProtocolParameters().WorkScoreParameters())
		return errOr(err, w)
	})},
	{"execute", onCase(func(x *shared, r *core.RNG, q *ledger.Prepared) string {
		stage, outs, err := q.Run()
		if err != nil {
			return stage + " error"
		}
		for _, o := range outs {
			stage += " " + sum(x.n.api.Encode(o))
		}
		return stage
	})},
	{"execute", onCase(func(x *shared, r *core.RNG, q *ledger.Prepared) string {
		stage, outs, err := q.Run()
		return stage + errOr(err, len(outs))
	})},
	{"output", onObj(func(x *shared, r *core.RNG, o *object, v any) string {
		out, ok := find[iotago.Output](r, v)
		if !ok {
			return ""
		}
		api := x.n.api
		switch r.Intn(7) {
		case 0:
			m, err := api.StorageScoreStructure().MinDeposit(out)
			return errOr(err, m)
		case 1:
			w, err := out.WorkScore(api.ProtocolParameters().WorkScoreParameters())
			return errOr(err, w)
		case 2:
			return fmt.Sprint(out.Size(), out.StorageScore(api.StorageScoreStructure(), nil), out.BaseTokenAmount(), out.StoredMana())
		case 3:
			ucs := out.UnlockConditionSet()
			return fmt.Sprint(len(ucs), ucs.HasExpirationCondition(), ucs.HasTimelockUntil(7), len(out.FeatureSet()))
		case 4:
			if i, ok := out.(iotago.OwnerTransitionIndependentOutput); ok {
				return fmt.Sprint(i.Owner().Key(), i.UnlockableBy(i.Owner(), 5, 9))
			}
			return ""
		case 5:
			m, err := iotago.PotentialMana(api.ManaDecayProvider(), api.StorageScoreStructure(), out, 3, 300)
			return errOr(err, m)
		}
		return fmt.Sprint(out.Equal(out.Clone()))
	})},
	{"address", onObj(func(x *shared, r *core.RNG, o *object, v any) string {
		a, ok := find[iotago.Address](r, v)
		if !ok {
			return ""
		}
		switch r.Intn(3) {
		case 0:
			return a.Bech32(x.params.Bech32HRP()) + a.String()
		case 1:
			return fmt.Sprintf("%x %d %v", a.Key(), a.Size(), a.Equal(a.Clone()))
		}
		_, b, err := iotago.ParseBech32(a.Bech32("rms"))
		return errOr(err, err == nil && b.Equal(a))
	})},
	{"parameters", func(x *shared, r *core.RNG) string {
		p := x.params
		if r.Bool() {
			p = x.n.api.ProtocolParameters()
		}
		switch r.Intn(4) {
		case 0:
			h, err := p.Hash()
			return errOr(err, h.ToHex())
		case 1:
			return sum(p.Bytes())
		case 2:
			return fmt.Sprint(p.Equals(x.n.api.ProtocolParameters()), p.NetworkID())
		}
		// the encoder copies the parameters, so only those of an API, whose caches are filled, can be encoded as they are
		return sumJSON(x.n.api.JSONEncode(x.n.api.ProtocolParameters()))
	}},
	{"another API", func(x *shared, r *core.RNG) string {
		a := iotago.V3API(x.params)
		o := x.raw[r.Intn(len(x.raw))]
		_, n, err := o.k.dec(&node{a, iotago.SingleVersionProvider(a)}, o.b)
		return errOr(err, n, a.MaxBlockWork() == x.n.api.MaxBlockWork())
	}},
	{"provider", func(x *shared, r *core.RNG) string {
		a, err := x.prov.APIForVersion(3)
		if err != nil {
			return "error"
		}
		h, err := x.prov.ProtocolEpochVersions(), error(nil)
		_ = h
		return errOr(err, a.MaxBlockWork(), x.prov.APIForSlot(iotago.SlotIndex(r.U32())).Version(), x.prov.CommittedAPI().Version(), x.prov.LatestAPI().Version())
	}},
	{"clock", func(x *shared, r *core.RNG) string {
		tp, s := x.n.api.TimeProvider(), iotago.SlotIndex(r.U32()>>8)
		return fmt.Sprint(tp.SlotStartTime(s).Unix(), tp.EpochFromSlot(s), tp.EpochEnd(tp.EpochFromSlot(s)), tp.SlotFromTime(time.Unix(int64(r.U32()), 0)))
	}},
	{"epochs", epochsOp}, {"epochs", epochsOp},
	{"mana", func(x *shared, r *core.RNG) string {
		mp, s := x.n.api.ManaDecayProvider(), iotago.SlotIndex(r.U32()>>20)
		a, err := mp.DecayManaBySlots(iotago.Mana(r.U32()), s, s+iotago.SlotIndex(r.Intn(5000)))
		b, err2 := mp.GenerateManaAndDecayBySlots(iotago.BaseToken(r.U32()), s, s+iotago.SlotIndex(r.Intn(5000)))
		return errOr(err, a) + errOr(err2, b)
	}},
	{"signer", func(x *shared, r *core.RNG) string {
		k := ledger.Keys()[r.Intn(len(ledger.Keys()))]
		var a iotago.Address = iotago.Ed25519AddressFromPubKey(k.Public().(ed25519.PublicKey))
		if r.Pct(30) {
			a = iotago.ImplicitAccountCreationAddressFromPubKey(k.Public().(ed25519.PublicKey))
		} else if r.Pct(30) {
			a = &iotago.RestrictedAddress{Address: a}
		}
		uid, err := x.signer.SignerUIDForAddress(a)
		s, err2 := x.signer.Sign(a, r.Bytes(r.Intn(40)))
		if err2 != nil {
			return errOr(err, uid.ToHex()) + " error"
		}
		return errOr(err, uid.ToHex()) + sum(x.n.api.Encode(s))
	}},
	{"alias", onObj(func(x *shared, r *core.RNG, o *object, v any) string {
		// aliases are shared by all threads, of which several may use the same, so what String says is not compared
		var id iotago.BlockID
		copy(id[:], r.Bytes(36))
		one := func(a interface {
			RegisterAlias(string)
			UnregisterAlias()
			String() string
		}) {
			a.RegisterAlias("a")
			_ = a.String()
			if r.Bool() {
				a.UnregisterAlias()
			}
		}
		oid := iotago.OutputID{}
		copy(oid[:], id[:])
		one(id)
		one(iotago.AccountID(r.Hash()))
		one(iotago.AnchorID(r.Hash()))
		one(iotago.Identifier(r.Hash()))
		one(iotago.CommitmentID(id))
		one(iotago.TransactionID(id))
		one(iotago.SignedTransactionID(id))
		one(oid)
		return ""
	})},
	{"clone", cloneOp}, {"clone", cloneOp}, {"clone", cloneOp}, {"clone", cloneOp},
	{"clone set", onObj(func(x *shared, r *core.RNG, o *object, v any) string {
		out, ok := find[iotago.Output](r, v)
		if !ok {
			return ""
		}
		fs := out.FeatureSet().Clone()
		wreck(reflect.ValueOf(&fs))
		set := iotago.OutputSet{iotago.OutputID{1}: out}.Clone()
		wreck(reflect.ValueOf(&set))
		return sum(o.k.enc(x.n, v))
	})},
	{"builder", builderOp}, {"builder", builderOp},
}

// epochsOp asks for the same few slots and epochs again and again, as others do.
func epochsOp(x *shared, r *core.RNG) string {
	tp, mp, st := x.n.api.TimeProvider(), x.n.api.ManaDecayProvider(), x.n.api.StorageScoreStructure()
	res := ""
	kind, one := r.Intn(10), r.Bool()
	for k := r.Range(2, 8); k > 0; k-- {
		if !one {
			kind = r.Intn(10)
		}
		e := iotago.EpochIndex(r.Range(0, 3))
		s := tp.GenesisSlot() + iotago.SlotIndex(uint32(e)*uint32(tp.EpochDurationSlots())) + iotago.SlotIndex(r.Intn(2))
		t := s + iotago.SlotIndex(r.Intn(3))*tp.EpochDurationSlots()
		v := uint64(1000000) << uint(r.Intn(3))
		switch kind {
		case 0:
			res += fmt.Sprint(tp.EpochStart(e), " ")
		case 1:
			res += fmt.Sprint(tp.EpochEnd(e), " ")
		case 2:
			res += fmt.Sprint(tp.EpochFromSlot(s), " ")
		case 3:
			res += fmt.Sprint(tp.SlotStartTime(s).UnixNano(), tp.SlotEndTime(s).UnixNano(), " ")
		case 4:
			res += fmt.Sprint(tp.SlotFromTime(tp.GenesisTime().Add(time.Duration(s)*time.Second)), " ")
		case 5:
			res += fmt.Sprint(tp.SlotsBeforeNextEpoch(s+1), tp.SlotsSinceEpochStart(s+1), " ")
		case 6:
			m, err := mp.DecayManaBySlots(iotago.Mana(v), s, t)
			res += errOr(err, m, " ")
		case 7:
			m, err := mp.GenerateManaAndDecayBySlots(iotago.BaseToken(v), s, t)
			res += errOr(err, m, " ")
		case 8:
			m, err := mp.DecayManaByEpochs(iotago.Mana(v), e, e+iotago.EpochIndex(r.Intn(3)))
			res += errOr(err, m, " ")
		case 9:
			m, err := st.MinStorageDepositForReturnOutput(core.Pick(r, []iotago.Address{&iotago.Ed25519Address{}, &iotago.RestrictedAddress{Address: &iotago.Ed25519Address{}, AllowedCapabilities: []byte{1}}}))
			res += errOr(err, m, " ")
		}
	}
	return res
}

// cloneOp clones a part of an object, compares the clone and changes all of it.
func cloneOp(x *shared, r *core.RNG) string {
	return onObj(func(x *shared, r *core.RNG, o *object, v any) string {
		var ps []reflect.Value
		parts(reflect.ValueOf(v), func(v reflect.Value) bool { return cloner(v).IsValid() }, &ps)
		if len(ps) == 0 {
			return "nothing to clone"
		}
		p := ps[0]
		if r.Bool() {
			p = core.Pick(r, ps)
		}
		c := cloner(p).Call(nil)[0]
		res := fmt.Sprint(p.Type())
		if d := differ(p, c, p.Type().String()); d != "" {
			res += " differs: " + d
		}
		y := reflect.New(c.Type())
		y.Elem().Set(c)
		wreck(y)
		if d := differ(p, c, ""); d == "" && p.Kind() == reflect.Ptr && p.Elem().Kind() == reflect.Struct && p.Elem().NumField() > 0 {
			x.note("clone that wrecking did not change " + p.Type().String())
		}
		return res + " " + sum(o.k.enc(x.n, v))
	})(x, r)
}

// sweep clones a part of every type in every object, compares the clone and changes all of it.
func sweep(c *core.Ctx, ref *shared) {
	for i, o := range ref.raw {
		v := ref.decode(i)
		if v == nil {
			continue
		}
		if _, err := o.k.enc(ref.n, v); err != nil {
			continue
		}
		var ps []reflect.Value
		parts(reflect.ValueOf(v), func(v reflect.Value) bool { return cloner(v).IsValid() }, &ps)
		seen := map[reflect.Type]bool{}
		for _, p := range ps {
			if seen[p.Type()] {
				continue
			}
			seen[p.Type()] = true
			c.Evals++
			c.Count("cloned " + p.Type().String())
			cl := cloner(p).Call(nil)[0]
			d := differ(p, cl, p.Type().String())
			c.Check(d == "", "clone", "the clone of a %s differs: %s", p.Type(), d)
			y := reflect.New(cl.Type())
			y.Elem().Set(cl)
			wreck(y)
			b, err := o.k.enc(ref.n, v)
			c.Check(err == nil && string(b) == string(o.b), "clone", "changing the clone of a %s changed the original (%v), a %s\n%x\n%x", p.Type(), err, o.k.name, o.b, b)
		}
	}
}

// note is for finding out what the machinery reaches; only the reference process, which has one thread, counts.
func (x *shared) note(s string) {
	if x.again && x.tracked != nil {
		x.tracked[s]++
	}
}

// builderOp builds from a clone of a builder, another clone of which is changed.
func builderOp(x *shared, r *core.RNG) string {
	if len(x.cases) == 0 {
		return "none"
	}
	b := x.build(r.Intn(len(x.cases)))
	if b == nil {
		return "none"
	}
	mess := b.Clone()
	for k := r.Range(1, 5); k > 0; k-- {
		switch r.Intn(9) {
		case 0:
			var in iotago.OutputID
			copy(in[:], r.Bytes(36))
			mess.AddInput(&builder.TxInput{UnlockTarget: &iotago.Ed25519Address{1}, InputID: in, Input: &iotago.BasicOutput{Amount: 1, UnlockConditions: iotago.BasicOutputUnlockConditions{}}})
		case 1:
			mess.AddOutput(&iotago.BasicOutput{Amount: 1})
		case 2:
			mess.IncreaseAllotment(iotago.AccountID{byte(r.Intn(3))}, 1)
		case 3:
			mess.SetCreationSlot(iotago.SlotIndex(r.U32() >> 20))
		case 4:
			mess.AddTaggedDataPayload(&iotago.TaggedData{Tag: []byte("x")})
		case 5:
			mess.WithTransactionCapabilities(iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanBurnMana(true)))
		case 6:
			mess.AllotMinRequiredManaAndStoreRemainingManaInOutput(iotago.SlotIndex(r.U32()>>20), iotago.Mana(r.Intn(5)), iotago.AccountID{1}, 0)
		case 7:
			mess.AddCommitmentInput(&iotago.CommitmentInput{})
		case 8:
			mess.StoreRemainingManaInOutputAndAllotRemainingAccountBoundMana(iotago.SlotIndex(r.U32()>>20), 0)
		}
	}
	if r.Bool() {
		mess.Build()
	}
	t, err := b.Clone().Build()
	if err != nil {
		return "error"
	}
	return sum(x.n.api.Encode(t))
}

func (Share) Run(c *core.Ctx) {
	seed := c.Plan.Seed
	pool := ledger.Harvest(c, c.Rng.Fork(), c.Rng.Range(3, 9))
	m := newMaker(c, pool)
	var raw []*object
	// what threads share most are blocks
	b := m.block(c.Rng)
	for k := 0; k < 10 && len(b.Weak) == 0; k++ {
		b = m.block(c.Rng)
	}
	raw = append(raw, &object{k: kBlock, b: model.EncBlock(b)})
	for k := c.Rng.Range(2, 7); k > 0; k-- {
		raw = append(raw, m.modelled(c.Rng))
	}
	cases := pool.Cases
	if len(cases) > 3 {
		cases = cases[len(cases)-3:]
	}
	type task struct {
		name string
		ops  []uint64
		got  []string
	}
	var tasks []*task
	for _, op := range c.Plan.Ops {
		if op.K == "schedule" {
			seed = op.S
			continue
		}
		if len(tasks) == 0 || tasks[len(tasks)-1].name != op.K {
			tasks = append(tasks, &task{name: op.K})
		}
		t := tasks[len(tasks)-1]
		t.ops = append(t.ops, op.S)
	}
	do := func(x *shared, s uint64) (res string) {
		r := core.NewRNG(s)
		op := core.Pick(r, shareOps)
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(core.Stop); ok || strings.HasPrefix(fmt.Sprintf("%T", p), "simrt.") {
					panic(p)
				}
				res = fmt.Sprintf("%s: panic at %s: %v", op.name, core.PanicSite(), p)
			}
		}()
		return op.name + ": " + op.do(x, r)
	}
	x := bootShared(pool.P, raw, cases, false)
	conc.Exec(c, seed, 0, 60_000_000, func(s *simrt.Sim) {
		var ids []int
		for _, t := range tasks {
			ids = append(ids, simrt.GoNamed(t.name, func() {
				for _, s := range t.ops {
					t.got = append(t.got, do(x, s))
				}
			}))
		}
		for _, id := range ids {
			simrt.Join(id)
		}
	})
	ref := bootShared(pool.P, raw, cases, true)
	ref.tracked = map[string]int64{}
	for _, t := range tasks {
		for i, s := range t.ops {
			c.Evals++
			want := do(ref, s)
			c.Logf("%s %s", t.name, want)
			name, _, _ := strings.Cut(want, ": ")
			c.Count("op." + name)
			c.State(want[:min(len(want), 60)])
			c.Check(t.got[i] == want, "shared", "%s with shared objects gives %q, alone %q", t.name, t.got[i], want)
			c.Check(!strings.Contains(want, "differs: "), "clone", "%s", want)
		}
	}
	if c.Rng.Pct(40) {
		sweep(c, ref)
	}
	// what was shared is as it was
	for i, o := range raw {
		if v := x.objs[i]; v != nil {
			c.Evals++
			b, err := o.k.enc(x.n, v)
			c.Check(err == nil && string(b) == string(o.b), "changed", "a shared %s changed (%v)\n%x\n%x", o.k.name, err, b, o.b)
			c.Check(diff(v, ref.decode(i)) == "", "changed", "a shared %s changed: %s", o.k.name, diff(v, ref.decode(i)))
		}
	}
	for i, q := range x.preps {
		if !q.Ready() {
			c.Count("case-not-ready")
			continue
		}
		z := ref.prep(i)
		c.Check(diff(q.V.Block, z.V.Block) == "", "changed", "a shared block changed: %s", diff(q.V.Block, z.V.Block))
		c.Check(diff(q.V.Res.InputSet, z.V.Res.InputSet) == "", "changed", "shared inputs changed: %s", diff(q.V.Res.InputSet, z.V.Res.InputSet))
		c.Check(diff(q.V.Res, z.V.Res) == "", "changed", "shared inputs changed: %s", diff(q.V.Res, z.V.Res))
	}
	var ks []string
	for k := range ref.tracked {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.Add(k, ref.tracked[k])
	}
	if len(tasks) > 0 {
		c.Sample(fmt.Sprintf("%d threads, %s", len(tasks), tasks[0].got))
	}
}
