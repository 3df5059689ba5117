package store

import (
	"bytes"
	"fmt"
	"reflect"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/sim/core"
)

// edited objects: a wallet that corrects an object it has at hand after its identifier, size or signing message was
// already used must get what belongs to the new content. Two objects of a kind are decoded, everything there is to know
// about the first is asked for, then fields of the second are copied into it one by one.

// derived asks for everything that is derived from the content of an object.
func derived(v any) (d []string) {
	add := func(b []byte, err error) {
		if err != nil {
			d = append(d, "error")
			return
		}
		d = append(d, hx(b))
	}
	switch x := v.(type) {
	case *iotago.Block:
		id, err := x.ID()
		add(id[:], err)
		add(x.SigningMessage())
		h, err := x.Body.Hash()
		add(h[:], err)
		h, err = x.Header.Hash(x.API)
		add(h[:], err)
		ok, err := x.VerifySignature()
		add([]byte{b2i(ok)}, err)
		ws, err := x.WorkScore()
		add(u64b(uint64(ws)), err)
		add(u64b(uint64(x.Size())), nil)
		if b, is := x.Body.(*iotago.BasicBlockBody); is {
			if t, is := b.Payload.(*iotago.SignedTransaction); is {
				d = append(d, derived(t)...)
			}
		}
	case *iotago.SignedTransaction:
		id, err := x.ID()
		add(id[:], err)
		ws, err := x.WorkScore(x.API.ProtocolParameters().WorkScoreParameters())
		add(u64b(uint64(ws)), err)
		add(u64b(uint64(x.Size())), nil)
		d = append(d, derived(x.Transaction)...)
	case *iotago.Transaction:
		id, err := x.ID()
		add(id[:], err)
		add(x.SigningMessage())
		h, err := x.TransactionCommitment()
		add(h[:], err)
		h, err = x.OutputCommitment()
		add(h[:], err)
		add(u64b(uint64(x.Size())), nil)
	case *iotago.Commitment:
		id, err := x.ID()
		add(id[:], err)
	case *iotago.Attestation:
		id, err := x.BlockID()
		add(id[:], err)
		ok, err := x.VerifySignature()
		add([]byte{b2i(ok)}, err)
	default:
		return nil
	}
	return d
}

func b2i(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func u64b(n uint64) (b []byte) {
	for i := 0; i < 8; i++ {
		b = append(b, byte(n>>(8*i)))
	}
	return b
}

// graft copies exported fields of src into dst, both of them pointers to the same type; keep tells which to leave alone.
func graft(dst, src reflect.Value, keep func() bool) {
	dst, src = dst.Elem(), src.Elem()
	if dst.Kind() != reflect.Struct {
		if !keep() {
			dst.Set(src)
		}
		return
	}
	t := dst.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() || f.Name == "API" {
			continue
		}
		a, b := dst.Field(i), src.Field(i)
		if a.Kind() == reflect.Interface && !a.IsNil() && !b.IsNil() && a.Elem().Type() == b.Elem().Type() {
			a, b = a.Elem(), b.Elem()
		}
		switch {
		case a.Kind() == reflect.Ptr && a.Type().Elem().Kind() == reflect.Struct && !a.IsNil() && !b.IsNil():
			graft(a, b, keep)
		case a.Kind() == reflect.Struct && f.Type.PkgPath() != "time":
			graft(a.Addr(), b.Addr(), keep)
		default:
			if !keep() {
				dst.Field(i).Set(src.Field(i))
			}
		}
	}
}

func (w *run) edit(r *core.RNG) {
	c := w.c
	var o, p *object
	for try := 0; try < 20; try++ {
		x := w.m.modelled(r)
		switch x.k {
		case kBlock, kSigned, kTx, kCommitment, kAttestation:
		default:
			continue
		}
		if o == nil {
			o = x
		} else if x.k == o.k && !bytes.Equal(x.b, o.b) {
			p = x
			break
		}
	}
	if p == nil {
		return
	}
	n := w.n
	pct := core.Pick(r, []int{0, 0, 50, 85})
	w.guard("editing", o, o.b, func() {
		v, _, err := o.k.dec(n, o.b)
		u, _, err2 := o.k.dec(n, p.b)
		if err != nil || err2 != nil {
			c.Count("edit-undecodable")
			return
		}
		derived(v)
		if r.Pct(50) {
			derived(u)
		}
		changed := 0
		graft(reflect.ValueOf(v), reflect.ValueOf(u), func() bool {
			if r.Pct(pct) {
				return true
			}
			changed++
			return false
		})
		// what a node makes of the bytes of the edited object
		b, err := n.api.Encode(v)
		if err != nil {
			c.Count("edit-unencodable")
			return
		}
		fresh := reflect.New(reflect.TypeOf(v).Elem()).Interface()
		if used, err := n.api.Decode(b, fresh); err != nil || used != len(b) {
			c.Count("edit-unreadable")
			return
		}
		c.Evals++
		got, want := derived(v), derived(fresh)
		for i := range want {
			if got[i] != want[i] {
				c.FailFor([]string{"B02"}, "stale", "%s edited after use: value %d derived from its content is %s, for another node it is %s\n%x", o.k.name, i, got[i], want[i], b)
			}
		}
		if bytes.Equal(b, p.b) && want[0] != p.id {
			c.FailFor([]string{"B02"}, "id", "%s edited has ID %s, by the documented layout it is %s\n%x", o.k.name, want[0], p.id, b)
		}
		// the attestation of an edited block
		if x, is := v.(*iotago.Block); is {
			a := iotago.NewAttestation(n.api, x)
			ai, err := a.BlockID()
			if err != nil || hx(ai[:]) != want[0] {
				c.FailFor([]string{"B02"}, "attestation", "attestation of an edited block %s has block ID %s (%v)\n%x", want[0], ai, err, b)
			}
		}
		c.Fault("edited")
		c.State("edited", o.k.name, fmt.Sprint(pct))
		// decoding into an object that was in use
		if _, err := n.api.Decode(o.b, v); err == nil {
			if again := derived(v); len(again) > 0 && again[0] != o.id {
				e, _ := n.api.Encode(v)
				if bytes.Equal(e, o.b) {
					c.FailFor([]string{"B02"}, "stale", "%s decoded into a used object has ID %s, by the documented layout it is %s\n%x", o.k.name, again[0], o.id, o.b)
				}
			}
		}
	})
}
