package store

import (
	"bytes"
	"crypto/ed25519"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime/debug"
	"runtime/metrics"
	"strings"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"

	"verif.local/sim/core"
	"verif.local/sim/ledger"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

// World of stored and transmitted objects.
type World struct{}

func (World) Plan(r *core.RNG, prop, tier string) []core.Op {
	n := r.Range(30, 60)
	if tier == "thorough" {
		n = r.Range(40, 120)
	}
	kinds := []string{"put", "resp", "sync", "crash", "read", "link", "json", "ids", "reader", "hostile", "hjson", "twin"}
	w := []int{10, 8, 4, 3, 4, 10, 10, 3, 3, 10, 8, 5}
	switch prop {
	case "B02":
		kinds = []string{"put", "sync", "crash", "read", "link", "hostile", "sign", "ids", "edit"}
		w = []int{8, 3, 3, 3, 6, 12, 12, 2, 8}
	case "B06":
		kinds = []string{"oproof", "rproof", "lproof", "hproof"}
		w = []int{10, 4, 5, 6}
	}
	ops := make([]core.Op, n)
	for i := range ops {
		ops[i] = core.Op{K: kinds[r.Weighted(w...)], S: r.U64()}
	}
	return ops
}

type record struct {
	o        *object
	off, len int
}

type run struct {
	c    *core.Ctx
	m    *maker
	n    *node // the running process
	recs []record
	disk []byte
	sync int // bytes of the disk that survive a crash
}

func (World) Run(c *core.Ctx) {
	n := 12
	if c.Prop == "B06" {
		n = 6
	}
	pool := ledger.Harvest(c, c.Rng.Fork(), c.Rng.Range(4, n))
	w := &run{c: c, m: newMaker(c, pool)}
	w.n = newNode(pool.P)
	if len(pool.Coins) == 0 {
		return
	}
	for _, op := range c.Plan.Ops {
		r := core.NewRNG(op.S)
		c.Steps++
		c.RunUntil(c.Now() + int64(r.Intn(1_000_000_000)))
		switch op.K {
		case "put":
			w.put(w.m.modelled(r))
		case "resp":
			w.put(w.m.response(r))
		case "sync":
			w.sync = len(w.disk)
			c.Logf("sync %d", w.sync)
		case "crash":
			w.crash(r)
		case "read":
			if len(w.recs) > 0 {
				x := core.Pick(r, w.recs)
				w.arrived(w.n, x.o, w.disk[x.off:x.off+x.len])
			}
		case "link":
			w.link(r, w.any(r), 30)
		case "hostile":
			w.link(r, w.any(r), 100)
		case "json":
			w.json(r, w.any(r), 0)
		case "hjson":
			w.json(r, w.any(r), 100)
		case "ids":
			w.ids(r)
		case "reader":
			w.reader(r)
			w.states(r)
		case "twin":
			w.twins(r, w.comparable(r))
		case "sign":
			w.sign(r)
		case "edit":
			w.edit(r)
		case "oproof":
			w.outputProof(r)
		case "rproof":
			w.rootsProof(r)
		case "lproof":
			w.listProof(r)
		case "hproof":
			w.hostileProof(r)
		}
	}
	if len(w.recs) > 0 {
		w.crash(c.Rng)
	}
}

func (w *run) any(r *core.RNG) *object {
	if len(w.recs) > 0 && r.Pct(40) {
		return core.Pick(r, w.recs).o
	}
	if w.c.Prop == "B02" || r.Pct(60) {
		o := w.m.modelled(r)
		w.made(o)
		return o
	}
	o := w.m.response(r)
	w.made(o)
	return o
}

// guard runs real code that must not panic.
func (w *run) guard(what string, o *object, b []byte, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(core.Stop); ok {
				panic(x)
			}
			st := string(debug.Stack())
			site := innermost(st)
			w.c.Count("panic." + site)
			if strings.Contains(site, "serix.(*API).mapDecode") {
				// Known weakness of the serialization library: it asserts the JSON types it expects.
				if w.c.Prop == "B03" || w.c.Prop == "B06" {
					w.c.Finding("json-type-panic", "panic", "%s of %s: panic in %s: %v\n%s", what, o.k.name, site, x, b)
				}
				return
			}
			w.c.FailFor([]string{"B03", "B06", "L15"}, "panic", "%s of %s: panic in %s: %v\n%s", what, o.k.name, site, x, hx(b))
		}
	}()
	simrt.BigAlloc()
	was := allocated()
	f()
	if n := simrt.BigAlloc(); n > 0 {
		w.c.Fault("huge-allocation")
		if w.c.Prop == "B03" {
			w.c.Finding("length-alloc", "allocation", "%s of %s: %d bytes of data make the serialization library allocate %d bytes", what, o.k.name, len(b), n)
		}
	}
	if n := allocated() - was; n > 64<<20+uint64(len(b))<<12 {
		w.c.FailFor([]string{"B03"}, "allocation", "%s of %s: %d bytes of data made the code allocate %d bytes\n%s", what, o.k.name, len(b), n, hx(b))
	}
}

// allocated is the number of bytes the process has allocated so far.
func allocated() uint64 {
	s := [1]metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s[:])
	return s[0].Value.Uint64()
}

// innermost is the first function below the runtime that was running when the panic happened.
func innermost(st string) string {
	seen := false
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "reflect.") || strings.HasPrefix(l, "panic(") {
			continue
		}
		if j := strings.LastIndex(l, "("); j > 0 {
			l = l[:j]
		}
		return l
	}
	return "?"
}

// states stores the states of blocks and transactions as single bytes and as text.
func (w *run) states(r *core.RNG) {
	c := w.c
	c.Evals++
	v := byte(r.Intn(7))
	if b, err := api.BlockState(v).Bytes(); err != nil || !bytes.Equal(b, []byte{v}) {
		c.FailFor([]string{"B03"}, "state", "block state %d has the bytes %x (%v)", v, b, err)
	}
	j, err := api.BlockState(v).EncodeJSON()
	var bs api.BlockState
	if err2 := bs.DecodeJSON(j); err != nil || err2 != nil || byte(bs) != v {
		c.FailFor([]string{"B03"}, "state", "block state %d is written as %v (%v) and read as %d (%v)", v, j, err, bs, err2)
	}
	v = byte(r.Intn(6))
	b, err := api.TransactionState(v).Bytes()
	tail := append(append([]byte(nil), b...), r.Bytes(r.Intn(3))...)
	ts, n, err2 := api.TransactionStateFromBytes(tail)
	if err != nil || err2 != nil || n != 1 || byte(ts) != v {
		c.FailFor([]string{"B03"}, "state", "transaction state %d has the bytes %x (%v), read as %d, %d bytes (%v)", v, b, err, ts, n, err2)
	}
	j, err = api.TransactionState(v).EncodeJSON()
	ts = 0
	if err2 := ts.DecodeJSON(j); err != nil || err2 != nil || byte(ts) != v {
		c.FailFor([]string{"B03"}, "state", "transaction state %d is written as %v (%v) and read as %d (%v)", v, j, err, ts, err2)
	}
	v = byte(r.Intn(256))
	b, err = api.TransactionFailureReason(v).Bytes()
	tail = append(append([]byte(nil), b...), r.Bytes(r.Intn(3))...)
	fr, n, err2 := api.TransactionFailureReasonFromBytes(tail)
	if err != nil || err2 != nil || n != 1 || byte(fr) != v {
		c.FailFor([]string{"B03"}, "state", "failure reason %d has the bytes %x (%v), read as %d, %d bytes (%v)", v, b, err, fr, n, err2)
	}
	if _, _, err := api.TransactionStateFromBytes(nil); err == nil {
		c.FailFor([]string{"B03"}, "state", "a transaction state was read from nothing")
	}
	if _, _, err := api.TransactionFailureReasonFromBytes(nil); err == nil {
		c.FailFor([]string{"B03"}, "state", "a failure reason was read from nothing")
	}
}

// made encodes an object for the first time.
func (w *run) made(o *object) {
	c := w.c
	c.Evals++
	modelled := o.b != nil
	if o.v == nil {
		w.guard("decoding", o, o.b, func() {
			v, _, err := o.k.dec(w.m.n, o.b)
			if err != nil {
				c.FailFor([]string{"B03"}, "refused", "%s refused: %v\n%x", o.k.name, err, o.b)
			}
			o.v = v
		})
	}
	w.guard("encoding", o, nil, func() {
		b, err := o.k.enc(w.m.n, o.v)
		if err != nil {
			c.FailFor([]string{"B03"}, "encode", "%s does not encode: %v", o.k.name, err)
		}
		if modelled && !bytes.Equal(b, o.b) {
			c.FailFor([]string{"B03"}, "layout", "%s encodes to\n%x, by the documented layout it is\n%x", o.k.name, b, o.b)
		}
		o.b = b
	})
	c.State("made", o.k.name, shape(o.b))
}

func shape(b []byte) string {
	n := 0
	for l := len(b); l > 0; l >>= 1 {
		n++
	}
	return fmt.Sprint(n)
}

func (w *run) put(o *object) {
	w.made(o)
	w.recs = append(w.recs, record{o, len(w.disk), len(o.b)})
	w.disk = append(w.disk, o.b...)
	w.c.Logf("put %s %d bytes", o.k.name, len(o.b))
	w.c.Sample(fmt.Sprintf("stored %s %x", o.k.name, o.b))
}

// crash loses what was not synced, partly or wholly, and restarts the process.
func (w *run) crash(r *core.RNG) {
	c := w.c
	c.Fault("crash")
	tail := w.disk[w.sync:]
	torn := append([]byte(nil), w.disk...)
	kind := "kept"
	if len(tail) > 0 {
		keep := r.Intn(len(tail) + 1)
		switch {
		case r.Pct(30) && c.On("lost-write"):
			kind = "lost"
			torn = torn[:w.sync]
		case r.Pct(40) && c.On("torn-write"):
			kind = "torn"
			torn = torn[:w.sync+keep]
		case r.Pct(40) && c.On("zeroed-pages"):
			kind = "zeroed"
			for i := w.sync + keep; i < len(torn); i++ {
				torn[i] = 0
			}
		case r.Pct(50) && c.On("garbage-pages"):
			kind = "garbage"
			copy(torn[w.sync+keep:], r.Bytes(len(tail)-keep))
		}
	}
	c.Fault("disk-" + kind)
	w.n = newNode(w.m.pool.P)
	c.Logf("crash, tail of %d bytes %s", len(tail), kind)
	// Everything is read again.
	for _, x := range w.recs {
		lo, hi := min(x.off, len(torn)), min(x.off+x.len, len(torn))
		w.arrived(w.n, x.o, torn[lo:hi])
		if len(torn) > hi && r.Pct(10) {
			// The length is lost: what follows on disk is read along.
			w.arrived(w.n, x.o, torn[lo:min(len(torn), hi+r.Range(1, 100))])
		}
	}
	// Records that did not survive are gone.
	var keep []record
	for _, x := range w.recs {
		if x.off+x.len <= len(torn) && bytes.Equal(torn[x.off:x.off+x.len], x.o.b) {
			keep = append(keep, x)
		}
	}
	w.recs, w.disk = nil, nil
	for _, x := range keep {
		w.recs = append(w.recs, record{x.o, len(w.disk), x.len})
		w.disk = append(w.disk, x.o.b...)
	}
	w.sync = len(w.disk)
}

// link sends an object to another process.
func (w *run) link(r *core.RNG, o *object, bad int) {
	b := append([]byte(nil), o.b...)
	for n := 0; r.Pct(bad) && c3(w.c.On("link-damage"), n < 3); n++ {
		w.c.Fault("link-damage")
		if r.Pct(12) && len(w.recs) > 0 {
			// Two messages run into each other.
			x := core.Pick(r, w.recs).o.b
			i, j := r.Intn(len(b)+1), r.Intn(len(x)+1)
			b = append(append([]byte(nil), b[:i]...), x[j:]...)
		} else {
			b = ledger.Damage(r, b)
		}
		bad /= 3
	}
	if r.Pct(20) && w.c.On("duplicate") {
		w.c.Fault("duplicate")
		w.arrived(newNode(w.m.pool.P), o, b)
	}
	w.arrived(w.n, o, b)
}

func c3(a, b bool) bool { return a && b }

// arrived is what a process makes of bytes that were an object.
func (w *run) arrived(n *node, o *object, b []byte) {
	c := w.c
	c.Evals++
	intact := bytes.Equal(b, o.b)
	in := append([]byte(nil), b...)
	w.guard("decoding", o, b, func() {
		v, used, err := o.k.dec(n, in)
		if !bytes.Equal(in, b) {
			c.FailFor([]string{"B03", "K02", "L15"}, "clobbered", "decoding a %s changed the bytes it was given", o.k.name)
		}
		if err != nil {
			if intact {
				c.FailFor([]string{"B03"}, "lost", "a stored %s does not decode again: %v\n%x", o.k.name, err, b)
			}
			c.Count("refused")
			c.State("refused", o.k.name, cause(err))
			return
		}
		if used < 0 || used > len(b) || intact && used != len(b) {
			c.FailFor([]string{"B03"}, "consumed", "%s of %d bytes: %d consumed\n%x", o.k.name, len(b), used, b)
		}
		b = b[:used]
		e, err := o.k.enc(n, v)
		if err != nil {
			c.FailFor([]string{"B03"}, "non-canonical", "a %s was decoded that can not be encoded: %v\n%x", o.k.name, err, b)
		}
		if o.k.resp && !bytes.Equal(e, b) && clamped(b, e) {
			if c.Prop == "B03" {
				c.Finding("api-time-clamp", "non-canonical", "%s decoded from %x encodes to %x", o.k.name, b, e)
			}
			return
		}
		if !bytes.Equal(e, b) {
			c.FailFor([]string{"B03"}, "non-canonical", "%s decoded from\n%x encodes to\n%x", o.k.name, b, e)
		}
		if s, ok := v.(iotago.Sizer); ok && s.Size() != len(b) {
			c.FailFor([]string{"B03"}, "size", "%s of %d bytes claims a size of %d\n%x", o.k.name, len(b), s.Size(), b)
		}
		// The same bytes always mean the same.
		in2 := append([]byte(nil), b...)
		v2, used2, err2 := o.k.dec(n, in2)
		if err2 != nil || used2 != used {
			c.FailFor([]string{"B03", "L15"}, "unstable", "%s decodes once but not twice: %v (%d, then %d bytes)\n%x", o.k.name, err2, used, used2, b)
		}
		if d := diff(v, v2); d != "" {
			c.FailFor([]string{"B03"}, "unstable", "%s decodes differently each time: %s\n%x", o.k.name, d, b)
		}
		// The object must not live in the buffer it was decoded from.
		for i := range in2 {
			in2[i] ^= 0xff
		}
		if d := diff(v, v2); d != "" {
			c.FailFor([]string{"B03", "K02"}, "aliased", "%s changes with the buffer it was decoded from: %s\n%x", o.k.name, d, b)
		}
		if intact {
			c.Count("intact")
			if d := diff(o.v, v); d != "" {
				c.FailFor([]string{"B03"}, "changed", "%s decodes to another object: %s\n%x", o.k.name, d, b)
			}
		} else {
			c.Count("decoded-damaged")
			c.State("damaged", o.k.name)
		}
		w.identity(n, o, v, b, intact)
	})
}

func cause(err error) string {
	s := err.Error()
	if i := strings.LastIndex(s, ": "); i >= 0 {
		s = s[i+2:]
	}
	if len(s) > 40 {
		s = s[:40]
	}
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return -1
		}
		return r
	}, s)
}

// identity checks the identifier and signatures of what arrived.
func (w *run) identity(n *node, o *object, v any, b []byte, intact bool) {
	c := w.c
	if o.k.id == nil || o.id == "" {
		return
	}
	both := []string{"B02", "B03"}
	id, err := o.k.id(v)
	if err != nil {
		c.FailFor(both, "id", "%s has no ID: %v\n%x", o.k.name, err, b)
	}
	id2, _ := o.k.id(v)
	if id2 != id {
		c.FailFor(both, "id", "%s changes its ID: %s, %s\n%x", o.k.name, id, id2, b)
	}
	if bytes.Equal(b, o.b) {
		if id != o.id {
			c.FailFor(both, "id", "%s has ID %s, by the documented layout it is %s\n%x", o.k.name, id, o.id, b)
		}
	} else if id == o.id {
		c.FailFor([]string{"B02"}, "id-collision", "%s altered to\n%x keeps the ID %s of\n%x", o.k.name, b, id, o.b)
	}
	switch x := v.(type) {
	case *iotago.Block:
		if mb, used, err := model.DecBlock(b); err == nil && used == len(b) {
			want := ed25519.Verify(mb.Pub[:], model.BlockSigningMessage(mb), mb.Sig[:])
			got, err := x.VerifySignature()
			if got != want && !smallOrder(mb.Pub[:]) {
				c.FailFor([]string{"B02"}, "signature", "block signature valid=%v (%v), it is %v\n%x", got, err, want, b)
			}
			mid := w.m.pool.P.BlockID(mb)
			if id != hx(mid[:]) {
				c.FailFor(both, "id", "block has ID %s, by the documented layout it is %x\n%x", id, mid, b)
			}
			w.attest(n, x, mb)
		}
	case *iotago.Attestation:
		w.attestation(x, b)
	}
}

// attest makes the attestation of a block.
func (w *run) attest(n *node, x *iotago.Block, mb *model.Block) {
	c := w.c
	a := iotago.NewAttestation(n.api, x)
	b, err := a.Bytes()
	if want := encAttestation(mb); err != nil || !bytes.Equal(b, want) {
		c.FailFor([]string{"B02", "B03"}, "attestation", "attestation of a block is %x (%v), by the documented layout it is %x", b, err, want)
	}
	ai, err := a.BlockID()
	bi, err2 := x.ID()
	if err != nil || err2 != nil || ai != bi {
		c.FailFor([]string{"B02"}, "attestation", "attestation of block %s has block ID %s (%v, %v)", bi, ai, err, err2)
	}
	w.attestation(a, b)
}

// attestation compares an attestation with the fixed places of its bytes.
func (w *run) attestation(x *iotago.Attestation, b []byte) {
	c := w.c
	const hdr = 1 + 8 + 8 + 36 + 4 + 32
	if len(b) != hdr+32+1+32+64 {
		c.FailFor([]string{"B02", "B03"}, "attestation", "attestation of %d bytes", len(b))
	}
	hh := model.Blake(b[:hdr])
	msg := append(append([]byte{}, hh[:]...), b[hdr:hdr+32]...)
	want := ed25519.Verify(b[hdr+33:hdr+65], msg, b[hdr+65:])
	got, err := x.VerifySignature()
	if got != want && !smallOrder(b[hdr+33:hdr+65]) {
		c.FailFor([]string{"B02"}, "signature", "attestation signature valid=%v (%v), it is %v\n%x", got, err, want, b)
	}
	h := model.Blake(msg, b[hdr+32:])
	id, err := x.BlockID()
	var ns uint64
	for i := 7; i >= 0; i-- {
		ns = ns<<8 | uint64(b[9+i])
	}
	slot := w.m.pool.P.SlotFromTime(ns)
	wid := append(append([]byte{}, h[:]...), byte(slot), byte(slot>>8), byte(slot>>16), byte(slot>>24))
	if ns < 1<<63-1 && (err != nil || !bytes.Equal(id[:], wid)) {
		c.FailFor([]string{"B02"}, "id", "attestation has block ID %x (%v), by the documented layout it is %x\n%x", id[:], err, wid, b)
	}
}

// smallOrder tells whether a public key is one of the few that nobody's secret belongs to and that, by the cofactored
// verification the protocol uses, accept signatures on anything.
func smallOrder(pub []byte) bool {
	k := append([]byte(nil), pub...)
	k[31] &= 0x7f
	switch hx(k) {
	case "0000000000000000000000000000000000000000000000000000000000000000",
		"0100000000000000000000000000000000000000000000000000000000000000",
		"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
		"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
		"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
		"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
		"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f":
		return true
	}
	return false
}

// sign tries to pass signed things off as other ones.
func (w *run) sign(r *core.RNG) {
	c := w.c
	b := w.m.block(r)
	x := *b
	what := ""
	switch r.Intn(8) {
	case 0:
		what = "network"
		x.NetworkID++
	case 1:
		what = "issuer"
		x.Issuer[r.Intn(32)] ^= 1 << uint(r.Intn(8))
	case 2:
		what = "time"
		x.IssuingTime += uint64(r.Range(1, 1000))
	case 3:
		what = "commitment"
		x.Commitment[r.Intn(36)] ^= 1 << uint(r.Intn(8))
	case 4:
		what = "finalized"
		x.Finalized ^= 1 << uint(r.Intn(32))
	case 5:
		what = "key"
		x.Pub = w.m.block(r).Pub
		if x.Pub == b.Pub {
			x.Pub[3] ^= 1
		}
	case 6:
		what = "signature"
		x.Sig = w.m.block(r).Sig
		if x.Sig == b.Sig {
			x.Sig[40] ^= 1
		}
	case 7:
		what = "body"
		x.Strong = append([]model.ID36{}, x.Strong...)
		x.Strong[0][0] ^= 1
	}
	c.Fault("forged-" + what)
	o := &object{k: kBlock, b: model.EncBlock(&x)}
	id := w.m.pool.P.BlockID(&x)
	o.id = hx(id[:])
	a := &object{k: kAttestation, b: encAttestation(&x), id: o.id}
	for _, o := range []*object{o, a} {
		o := o
		c.Evals++
		w.guard("decoding", o, o.b, func() {
			v, _, err := o.k.dec(w.n, o.b)
			if err != nil {
				c.Count("forged-refused")
				return
			}
			valid := false
			switch y := v.(type) {
			case *iotago.Block:
				valid, _ = y.VerifySignature()
			case *iotago.Attestation:
				valid, _ = y.VerifySignature()
			}
			if valid {
				c.FailFor([]string{"B02"}, "forgery", "signature of a %s whose %s was replaced is valid\n%x", o.k.name, what, o.b)
			}
			c.State("forged", o.k.name, what)
			w.identity(w.n, o, v, o.b, false)
		})
	}
	// The same bytes in a network that has another name.
	if r.Pct(30) {
		p := *w.m.pool.P
		p.NetworkName += "x"
		n := newNode(&p)
		o := &object{k: kBlock, b: model.EncBlock(b)}
		w.guard("decoding", o, o.b, func() {
			v, _, err := o.k.dec(n, o.b)
			if err == nil {
				c.FailFor([]string{"B02", "B01"}, "foreign", "a block of network %q is accepted in network %q (%v)", w.m.pool.P.NetworkName, p.NetworkName, v)
			}
		})
	}
}

// json sends an object as text.
func (w *run) json(r *core.RNG, o *object, bad int) {
	c := w.c
	if o.v == nil {
		return
	}
	var txt []byte
	w.guard("JSON encoding", o, nil, func() {
		var err error
		txt, err = w.m.n.api.JSONEncode(o.v, serix.WithValidation())
		if err != nil {
			c.FailFor([]string{"B03"}, "json", "%s has no JSON form: %v\n%x", o.k.name, err, o.b)
		}
	})
	if txt == nil {
		return
	}
	orig := txt
	if r.Pct(bad) && c.On("json-damage") {
		c.Fault("json-damage")
		txt = damageJSON(r, txt)
	}
	intact := bytes.Equal(orig, txt)
	c.Evals++
	w.guard("JSON decoding", o, txt, func() {
		p := o.k.ptr()
		err := w.n.api.JSONDecode(txt, p, serix.WithValidation())
		if err != nil {
			if intact {
				c.FailFor([]string{"B03"}, "json", "%s does not decode from its own JSON: %v\n%s", o.k.name, err, txt)
			}
			c.Count("json-refused")
			c.State("json-refused", o.k.name, cause(err))
			return
		}
		v := o.k.val(p)
		if intact {
			if d := diff(o.v, v); d != "" {
				c.FailFor([]string{"B03"}, "json", "%s decodes to another object from JSON: %s\n%s", o.k.name, d, txt)
			}
			b, err := o.k.enc(w.n, v)
			if err != nil || !bytes.Equal(b, o.b) {
				c.FailFor([]string{"B03"}, "json", "%s went through JSON and encodes to (%v)\n%x instead of\n%x\n%s", o.k.name, err, b, o.b, txt)
			}
			if o.id != "" {
				if id, err := o.k.id(v); err != nil || id != o.id {
					c.FailFor([]string{"B03", "B02"}, "json", "%s has ID %s (%v) after JSON, it was %s", o.k.name, id, err, o.id)
				}
			}
			c.Count("json-intact")
			c.State("json", o.k.name)
			return
		}
		c.Count("json-damaged-decoded")
		w.stable(o, v, txt)
	})
}

// stable checks that an object that came out of damaged text is a whole object.
func (w *run) stable(o *object, v any, txt []byte) {
	c := w.c
	if rv := reflect.ValueOf(v); !rv.IsValid() || rv.Kind() == reflect.Ptr && rv.IsNil() {
		return
	}
	t2, err := w.n.api.JSONEncode(v, serix.WithValidation())
	if err != nil {
		c.State("json-dead", o.k.name, cause(err))
		c.Count("json-damaged-not-encodable")
		return
	}
	p := o.k.ptr()
	if err := w.n.api.JSONDecode(t2, p, serix.WithValidation()); err != nil {
		c.FailFor([]string{"B03"}, "json-unstable", "%s decoded from\n%s\nencodes to\n%s\nwhich does not decode: %v", o.k.name, txt, t2, err)
	}
	if d := diff(v, o.k.val(p)); d != "" {
		if i := strings.Index(d, "Time: "); o.k.resp && i >= 0 && (d[i+6:] < "1970" || d[i+6:] > "2262") {
			if c.Prop == "B03" {
				c.Finding("api-time-clamp", "json-unstable", "%s decoded from %s is another object the next time: %s", o.k.name, txt, d)
			}
			return
		}
		c.FailFor([]string{"B03"}, "json-unstable", "%s decoded from\n%s\nencodes to\n%s\nwhich is another object: %s", o.k.name, txt, t2, d)
	}
}

var jsonValues = []any{nil, true, false, 0.0, -1.0, 1.5, 1e300, "", "0x", "0x0", "0xzz", "-1", "18446744073709551616", "99999999999999999999999999", "0x00", []any{}, map[string]any{}, []any{nil}, []any{1.0}, "\u0000", map[string]any{"type": 255.0}, map[string]any{"type": "0"}, map[string]any{"type": 1.5}}

// damageJSON alters text as a broken or hostile peer does: letter by letter or value by value.
func damageJSON(r *core.RNG, txt []byte) []byte {
	if r.Pct(30) {
		b := append([]byte(nil), txt...)
		for n := r.Range(1, 3); n > 0; n-- {
			b = ledger.Damage(r, b)
		}
		return b
	}
	var v any
	if json.Unmarshal(txt, &v) != nil {
		return txt
	}
	// All places.
	type place struct {
		set func(any)
		del func()
		v   any
		dup func()
	}
	var ps []place
	var walk func(v any)
	walk = func(v any) {
		switch x := v.(type) {
		case map[string]any:
			for _, k := range core.SortedKeys(x) {
				k := k
				ps = append(ps, place{func(y any) { x[k] = y }, func() { delete(x, k) }, x[k], func() { x[k+"x"] = x[k] }})
				walk(x[k])
			}
		case []any:
			for i := range x {
				i := i
				ps = append(ps, place{func(y any) { x[i] = y }, nil, x[i], nil})
				walk(x[i])
			}
		}
	}
	walk(v)
	if len(ps) == 0 {
		return txt
	}
	for n := r.Range(1, 2); n > 0; n-- {
		p := core.Pick(r, ps)
		switch r.Intn(5) {
		case 0:
			if p.del != nil {
				p.del()
			}
		case 1:
			p.set(core.Pick(r, jsonValues))
		case 2:
			p.set(core.Pick(r, ps).v)
			if _, err := json.Marshal(depth(v, 0)); err != nil {
				return txt
			}
		case 3:
			if s, ok := p.v.(string); ok {
				p.set(string(ledger.Damage(r, []byte(s))))
			} else if f, ok := p.v.(float64); ok {
				p.set(f + float64(r.Range(-2, 2)))
			} else if l, ok := p.v.([]any); ok && len(l) > 0 {
				p.set(append(append([]any{}, l...), l[r.Intn(len(l))]))
			}
		case 4:
			if s, ok := p.v.(string); ok && strings.HasPrefix(s, "0x") {
				switch r.Intn(4) {
				case 0:
					p.set(s + "00")
				case 1:
					p.set(s[:len(s)-len(s)/4*2])
				case 2:
					p.set(strings.ToUpper(s))
				case 3:
					p.set("0x00" + s[2:])
				}
			} else if l, ok := p.v.([]any); ok && len(l) > 1 {
				l = append([]any{}, l...)
				r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
				p.set(l)
			}
		}
	}
	if depth(v, 0) == nil {
		return txt
	}
	out, err := json.Marshal(v)
	if err != nil {
		return txt
	}
	return out
}

// depth refuses values that contain themselves.
func depth(v any, d int) any {
	if d > 60 {
		return nil
	}
	switch x := v.(type) {
	case map[string]any:
		for _, y := range x {
			if y != nil && depth(y, d+1) == nil {
				return nil
			}
		}
	case []any:
		for _, y := range x {
			if y != nil && depth(y, d+1) == nil {
				return nil
			}
		}
	}
	return v
}

// badReader is a file or connection that gives little at a time and may fail.
type badReader struct {
	b    []byte
	pos  int
	r    *core.RNG
	fail int // position where reading fails, -1 never
	slow bool
}

var errDisk = errors.New("input/output error")

func (x *badReader) Read(p []byte) (int, error) {
	if x.fail >= 0 && x.pos >= x.fail {
		return 0, errDisk
	}
	if x.pos >= len(x.b) {
		return 0, io.EOF
	}
	n := len(p)
	if x.slow && n > 1 {
		n = x.r.Range(1, n)
	}
	n = min(n, len(x.b)-x.pos)
	if x.fail >= 0 {
		n = min(n, x.fail-x.pos)
	}
	copy(p, x.b[x.pos:x.pos+n])
	x.pos += n
	return n, nil
}

func (x *badReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		x.pos = int(off)
	case io.SeekCurrent:
		x.pos += int(off)
	case io.SeekEnd:
		x.pos = len(x.b) + int(off)
	}
	if x.pos < 0 {
		x.pos = 0
		return 0, errors.New("negative position")
	}
	return int64(x.pos), nil
}

// reader reads addresses and keys off a disk.
func (w *run) reader(r *core.RNG) {
	c := w.c
	o := &object{k: kAddr, b: model.EncAddr(w.m.pool.Addr(r))}
	keys := r.Pct(30)
	var want []any
	if keys {
		var set []iotago.BlockIssuerKey
		n := r.Intn(6)
		for i := 0; i < n; i++ {
			set = append(set, iotago.Ed25519PublicKeyHashBlockIssuerKeyFromPublicKey([32]byte(r.Bytes(32))))
		}
		ks := iotago.NewBlockIssuerKeys(set...)
		ks.Sort()
		b, err := ks.Bytes()
		if err != nil {
			c.FailFor([]string{"B03"}, "encode", "block issuer keys do not encode: %v", err)
		}
		o = &object{k: kKey, b: b}
		for _, k := range ks {
			want = append(want, k)
		}
	}
	x := &badReader{b: append(append([]byte(nil), o.b...), r.Bytes(r.Intn(50))...), r: r.Fork(), fail: -1}
	how := "clean"
	if r.Pct(50) && c.On("short-read") {
		c.Fault("short-read")
		x.slow = true
		how = "slow"
	}
	cut := false
	if r.Pct(30) && c.On("read-error") {
		c.Fault("read-error")
		x.fail = r.Intn(len(o.b) + 1)
		how += " error"
		cut = x.fail < len(o.b)
	} else if r.Pct(30) && c.On("truncated-file") {
		c.Fault("truncated-file")
		n := r.Intn(len(o.b) + 1)
		x.b = x.b[:n]
		cut = n < len(o.b)
		how += " cut"
	}
	c.Evals++
	w.guard("reading", o, o.b, func() {
		var err error
		var got []any
		var a iotago.Address
		if keys {
			var ks iotago.BlockIssuerKeys
			ks, err = iotago.BlockIssuerKeysFromReader(x)
			for _, k := range ks {
				got = append(got, k)
			}
		} else {
			a, err = iotago.AddressFromReader(x)
		}
		if cut {
			if err == nil {
				c.FailFor([]string{"B03"}, "read", "reading from %s stream ended early but gave no error\n%x", how, o.b)
			}
			c.State("read", how, cause(err))
			return
		}
		if err != nil {
			if x.slow {
				// The stream helpers of the serialization library give up when one read does not return everything: an
				// error, not a wrong object.
				c.Count("slow-read-refused")
				return
			}
			c.FailFor([]string{"B03"}, "read", "reading from %s stream failed: %v\n%x", how, err, o.b)
		}
		c.State("read", how)
		if x.pos != len(o.b) {
			c.FailFor([]string{"B03"}, "read", "reading %d bytes left the stream at %d\n%x", len(o.b), x.pos, o.b)
		}
		if keys {
			if d := diff(want, got); d != "" {
				c.FailFor([]string{"B03"}, "read", "keys read differ: %s", d)
			}
			return
		}
		b, err := w.n.api.Encode(a, serix.WithValidation())
		if err != nil || !bytes.Equal(b, o.b) {
			c.FailFor([]string{"B03"}, "read", "address read from\n%x encodes to\n%x (%v)", o.b, b, err)
		}
	})
}

// ids sends identifiers as bytes and as text.
func (w *run) ids(r *core.RNG) {
	c := w.c
	c.Evals++
	b := r.Bytes(38)
	if r.Pct(10) {
		b = make([]byte, 38)
	}
	slot := uint32(b[32]) | uint32(b[33])<<8 | uint32(b[34])<<16 | uint32(b[35])<<24
	idx := uint16(b[36]) | uint16(b[37])<<8
	fail := func(what string, got any) {
		c.FailFor([]string{"B03", "B02"}, "id-text", "%s of %x is %v", what, b, got)
	}
	o := &object{k: &kind{name: "id"}}
	w.guard("identifier", o, b, func() {
		for _, l := range idLaws {
			if s := l(r, b); s != "" {
				fail(s, "wrong")
			}
		}
		{
			id, n, err := iotago.OutputIDFromBytes(b)
			if err != nil || n != 38 || !bytes.Equal(id[:], b) {
				fail("output ID", id)
			}
			if id.Index() != idx {
				fail("output index", id.Index())
			}
			if uint32(id.Slot()) != slot || uint32(id.CreationSlot()) != slot {
				fail("output slot", id.Slot())
			}
			t := id.TransactionID()
			if !bytes.Equal(t[:], b[:36]) {
				fail("transaction ID", t)
			}
			if x := iotago.OutputIDFromTransactionIDAndIndex(t, idx); x != id {
				fail("output ID of parts", x)
			}
			in := id.UTXOInput()
			if in.OutputID() != id {
				fail("input", in.OutputID())
			}
			h := id.ToHex()
			if h != "0x"+hx(b) {
				fail("hex", h)
			}
			if x, err := iotago.OutputIDFromHexString(h); err != nil || x != id {
				fail("hex back", x)
			}
			hs := iotago.OutputIDs{id}.ToHex()
			hids := iotago.HexOutputIDsFromOutputIDs(id)
			if hs[0] != h || string(hids[0]) != h {
				fail("hex list", hs)
			}
			if x, err := hids.OutputIDs(); err != nil || len(x) != 1 || x[0] != id {
				fail("hex list", x)
			}
			if _, _, err := iotago.OutputIDFromBytes(b[:r.Intn(38)]); err == nil {
				fail("cut", "accepted")
			}
			txt, err := id.MarshalText()
			var y iotago.OutputID
			if err != nil || y.UnmarshalText(txt) != nil || y != id {
				fail("text", string(txt))
			}
		}
		b := b[:36]
		{
			id, n, err := iotago.BlockIDFromBytes(b)
			if err != nil || n != 36 || !bytes.Equal(id[:], b) || uint32(id.Slot()) != slot {
				fail("block ID", id)
			}
			if x, err := iotago.BlockIDFromHexString(id.ToHex()); err != nil || x != id || id.ToHex() != "0x"+hx(b) {
				fail("block ID hex", x)
			}
			if x := iotago.NewBlockID(iotago.SlotIndex(slot), iotago.Identifier(b[:32])); x != id {
				fail("block ID of parts", x)
			}
			if _, _, err := iotago.BlockIDFromBytes(b[:r.Intn(36)]); err == nil {
				fail("cut block ID", "accepted")
			}
			if x := id.Identifier(); !bytes.Equal(x[:], b[:32]) {
				fail("identifier part", x)
			}
			txt, err := id.MarshalText()
			var y iotago.BlockID
			if err != nil || y.UnmarshalText(txt) != nil || y != id {
				fail("text", string(txt))
			}
		}
		{
			id, n, err := iotago.CommitmentIDFromBytes(b)
			if err != nil || n != 36 || !bytes.Equal(id[:], b) || uint32(id.Slot()) != slot {
				fail("commitment ID", id)
			}
			if x, err := iotago.CommitmentIDFromHexString(id.ToHex()); err != nil || x != id {
				fail("commitment ID hex", x)
			}
			if _, _, err := iotago.CommitmentIDFromBytes(b[:r.Intn(36)]); err == nil {
				fail("cut commitment ID", "accepted")
			}
		}
		{
			id, n, err := iotago.TransactionIDFromBytes(b)
			if err != nil || n != 36 || !bytes.Equal(id[:], b) || uint32(id.Slot()) != slot {
				fail("transaction ID", id)
			}
			if x, err := iotago.TransactionIDFromHexString(id.ToHex()); err != nil || x != id {
				fail("transaction ID hex", x)
			}
			if _, _, err := iotago.TransactionIDFromBytes(b[:r.Intn(36)]); err == nil {
				fail("cut transaction ID", "accepted")
			}
		}
		{
			id, n, err := iotago.SignedTransactionIDFromBytes(b)
			if err != nil || n != 36 || !bytes.Equal(id[:], b) {
				fail("signed transaction ID", id)
			}
			if x, err := iotago.SignedTransactionIDFromHexString(id.ToHex()); err != nil || x != id {
				fail("signed transaction ID hex", x)
			}
		}
		b = b[:32]
		{
			id, n, err := iotago.AccountIDFromBytes(b)
			if err != nil || n != 32 || !bytes.Equal(id[:], b) {
				fail("account ID", id)
			}
			if x, err := iotago.AccountIDFromHexString(id.ToHex()); err != nil || x != id {
				fail("account ID hex", x)
			}
			if _, _, err := iotago.AccountIDFromBytes(b[:r.Intn(32)]); err == nil {
				fail("cut account ID", "accepted")
			}
			a := id.ToAddress().(*iotago.AccountAddress)
			if x := a.AccountID(); x != id {
				fail("account address", x)
			}
		}
		{
			id, n, err := iotago.AnchorIDFromBytes(b)
			if err != nil || n != 32 || !bytes.Equal(id[:], b) {
				fail("anchor ID", id)
			}
			if x, err := iotago.AnchorIDFromHexString(id.ToHex()); err != nil || x != id {
				fail("anchor ID hex", x)
			}
		}
		{
			id, n, err := iotago.IdentifierFromBytes(b)
			if err != nil || n != 32 || !bytes.Equal(id[:], b) {
				fail("identifier", id)
			}
			if x, err := iotago.IdentifierFromHexString(id.ToHex()); err != nil || x != id {
				fail("identifier hex", x)
			}
		}
		{
			s := iotago.SlotIndex(slot)
			if x, n, err := iotago.SlotIndexFromBytes(s.MustBytes()); err != nil || n != 4 || x != s || !bytes.Equal(s.MustBytes(), []byte{byte(slot), byte(slot >> 8), byte(slot >> 16), byte(slot >> 24)}) {
				fail("slot", x)
			}
			e := iotago.EpochIndex(slot)
			if x, n, err := iotago.EpochIndexFromBytes(e.MustBytes()); err != nil || n != 4 || x != e {
				fail("epoch", x)
			}
			if _, _, err := iotago.SlotIndexFromBytes(b[:r.Intn(4)]); err == nil {
				fail("cut slot", "accepted")
			}
			if _, _, err := iotago.EpochIndexFromBytes(b[:r.Intn(4)]); err == nil {
				fail("cut epoch", "accepted")
			}
		}
	})
	c.State("ids")
}

var idLaws = []func(r *core.RNG, b []byte) string{
	idLaw("output ID", 38, iotago.OutputIDFromBytes, iotago.OutputIDFromHexString, iotago.IsValidOutputID, (*iotago.OutputID).UnmarshalText),
	idLaw("block ID", 36, iotago.BlockIDFromBytes, iotago.BlockIDFromHexString, iotago.IsValidBlockID, (*iotago.BlockID).UnmarshalText),
	idLaw("commitment ID", 36, iotago.CommitmentIDFromBytes, iotago.CommitmentIDFromHexString, iotago.IsValidCommitmentID, (*iotago.CommitmentID).UnmarshalText),
	idLaw("transaction ID", 36, iotago.TransactionIDFromBytes, iotago.TransactionIDFromHexString, iotago.IsValidTransactionID, (*iotago.TransactionID).UnmarshalText),
	idLaw("signed transaction ID", 36, iotago.SignedTransactionIDFromBytes, iotago.SignedTransactionIDFromHexString, iotago.IsValidSignedTransactionID, (*iotago.SignedTransactionID).UnmarshalText),
	idLaw("account ID", 32, iotago.AccountIDFromBytes, iotago.AccountIDFromHexString, iotago.IsValidAccountID, (*iotago.AccountID).UnmarshalText),
	idLaw("anchor ID", 32, iotago.AnchorIDFromBytes, iotago.AnchorIDFromHexString, iotago.IsValidAnchorID, (*iotago.AnchorID).UnmarshalText),
	idLaw("identifier", 32, iotago.IdentifierFromBytes, iotago.IdentifierFromHexString, iotago.IsValidIdentifier, (*iotago.Identifier).UnmarshalText),
}

// idLaw says how an identifier is read from bytes and text, of which there may be more or less than there should be.
func idLaw[T interface {
	comparable
	Bytes() ([]byte, error)
	MarshalText() ([]byte, error)
	ToHex() string
}](name string, size int, from func([]byte) (T, int, error), fromHex func(string) (T, error), valid func([]byte) error, unmarshal func(*T, []byte) error) func(r *core.RNG, b []byte) string {
	return func(r *core.RNG, b []byte) string {
		b = b[:size:size]
		id, n, err := from(append(append([]byte(nil), b...), r.Bytes(r.Intn(5))...))
		if err != nil || n != size {
			return name + " at the front of more bytes"
		}
		if x, err := id.Bytes(); err != nil || !bytes.Equal(x, b) {
			return name + " bytes"
		}
		if _, _, err := from(b[:r.Intn(size)]); err == nil {
			return name + " cut"
		}
		if k := r.Range(-2, 2); (valid(append(append([]byte(nil), b...), 0, 0)[:size+k]) == nil) != (k == 0) {
			return name + " validity"
		}
		txt, err := id.MarshalText()
		var y T
		if err != nil || string(txt) != hx(b) || unmarshal(&y, txt) != nil || y != id {
			return name + " text"
		}
		if x, err := fromHex(id.ToHex()); err != nil || x != id || id.ToHex() != "0x"+hx(b) {
			return name + " hex"
		}
		// damaged text is refused, or it is the text of another identifier
		bad := append([]byte(nil), txt...)
		switch r.Intn(4) {
		case 0:
			bad = bad[:r.Intn(len(bad))]
		case 1:
			bad = append(bad, txt[:r.Range(1, 8)]...)
		case 2:
			bad[r.Intn(len(bad))] = byte(r.U32())
		case 3:
			bad = append([]byte("0x"), bad...)
		}
		if err := unmarshal(&y, bad); err == nil {
			if back, err := y.MarshalText(); err != nil || !strings.EqualFold(string(back), string(bad)) {
				return fmt.Sprintf("%s from text %q", name, bad)
			}
		}
		if x, err := fromHex("0x" + string(txt[:r.Intn(len(txt))])); err == nil {
			return fmt.Sprint(name, " from cut hex ", x)
		}
		return ""
	}
}

// clamped tells whether the only difference is in times beyond the largest representable one.
func clamped(b, e []byte) bool {
	if len(b) != len(e) {
		return false
	}
	top := []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}
	x := append([]byte(nil), b...)
	for i := 0; i+8 <= len(e); i++ {
		if x[i+7] >= 0x80 && (bytes.Equal(e[i:i+8], top) || bytes.Equal(e[i:i+8], make([]byte, 8))) {
			copy(x[i:], e[i:i+8])
		}
	}
	return bytes.Equal(x, e)
}
