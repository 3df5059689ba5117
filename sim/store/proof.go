package store

import (
	"bytes"
	"crypto"
	"errors"
	"fmt"
	"strings"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/merklehasher"

	"verif.local/sim/core"
	"verif.local/sim/ledger"
	"verif.local/sim/model"
)

// tree is a proof as its bytes say, by the model.
type tree struct {
	kind byte // 0 node, 1 leaf, 2 value
	hash []byte
	l, r *tree
}

func decTree(b []byte, depth int) (*tree, []byte, bool) {
	if len(b) == 0 || depth > 2000 {
		return nil, nil, false
	}
	t := &tree{kind: b[0]}
	b = b[1:]
	switch t.kind {
	case 0:
		var ok bool
		if t.l, b, ok = decTree(b, depth+1); !ok {
			return nil, nil, false
		}
		if t.r, b, ok = decTree(b, depth+1); !ok {
			return nil, nil, false
		}
	case 1, 2:
		if len(b) == 0 || len(b) < 1+int(b[0]) {
			return nil, nil, false
		}
		n := int(b[0])
		t.hash, b = b[1:1+n], b[1+n:]
	default:
		return nil, nil, false
	}
	return t, b, true
}

func (t *tree) root() []byte {
	if t.kind != 0 {
		return t.hash
	}
	h := model.Blake([]byte{1}, t.l.root(), t.r.root())
	return h[:]
}

func (t *tree) contains(h []byte) bool {
	if t.kind == 0 {
		return t.l.contains(h) || t.r.contains(h)
	}
	return t.kind == 2 && bytes.Equal(t.hash, h)
}

func (t *tree) enc() []byte {
	if t.kind == 0 {
		return append(append([]byte{0}, t.l.enc()...), t.r.enc()...)
	}
	return append([]byte{t.kind, byte(len(t.hash))}, t.hash...)
}

func (t *tree) all() []*tree {
	if t.kind != 0 {
		return []*tree{t}
	}
	return append(append([]*tree{t}, t.l.all()...), t.r.all()...)
}

// makeTree is the proof that an honest node makes.
func makeTree(leaves [][]byte, i int) *tree {
	if len(leaves) == 1 {
		h := model.Merkle(leaves)
		return &tree{kind: 2, hash: h[:]}
	}
	k := 1
	for k*2 < len(leaves) {
		k *= 2
	}
	if i < k {
		h := model.Merkle(leaves[k:])
		return &tree{l: makeTree(leaves[:k], i), r: &tree{kind: 1, hash: h[:]}}
	}
	h := model.Merkle(leaves[:k])
	return &tree{l: &tree{kind: 1, hash: h[:]}, r: makeTree(leaves[k:], i-k)}
}

func leafHash(b []byte) []byte { h := model.Blake([]byte{0}, b); return h[:] }

// attack alters a proof as a liar does.
func attack(r *core.RNG, t *tree, others []*tree, values [][]byte) *tree {
	b := t.enc()
	x, _, _ := decTree(b, 0)
	for n := r.Range(1, 2); n > 0; n-- {
		ns := x.all()
		p := core.Pick(r, ns)
		switch r.Intn(8) {
		case 0: // mark another node as the value, or the value as another node
			if p.kind != 0 {
				p.kind = 3 - p.kind
			}
		case 1: // swap the two sides
			p.l, p.r = p.r, p.l
		case 2: // part of another proof
			o := core.Pick(r, core.Pick(r, others).all())
			c, _, _ := decTree(o.enc(), 0)
			*p = *c
		case 3: // the hash of a value
			*p = tree{kind: 2, hash: leafHash(core.Pick(r, values))}
		case 4: // hide the value beside the true tree
			c, _, _ := decTree(p.enc(), 0)
			v := &tree{kind: 2, hash: leafHash(core.Pick(r, values))}
			if r.Bool() {
				*p = tree{l: c, r: v}
			} else {
				*p = tree{l: v, r: c}
			}
		case 5: // move bytes between neighbours
			if p.kind == 0 && p.l.kind != 0 && p.r.kind != 0 {
				all := append(append([]byte{}, p.l.hash...), p.r.hash...)
				k := r.Intn(len(all) + 1)
				if k < 256 && len(all)-k < 256 {
					p.l.hash, p.r.hash = all[:k], all[k:]
				}
			}
		case 6: // a leaf that spells out what is below it
			if p.kind == 0 {
				c := append(append([]byte{}, p.l.root()...), p.r.root()...)
				*p = tree{kind: byte(r.Range(1, 2)), hash: c}
			}
		case 7:
			if p.kind != 0 && len(p.hash) > 0 {
				h := append([]byte{}, p.hash...)
				h[r.Intn(len(h))] ^= 1 << uint(r.Intn(8))
				p.hash = h
			}
		}
	}
	return x
}

func b06() []string { return []string{"B06", "C03"} }

// transport sends a proof to another process and back.
func (w *run) transport(r *core.RNG, p *iotago.OutputIDProof, mb []byte) *iotago.OutputIDProof {
	c := w.c
	n := newNode(w.m.pool.P)
	b, err := p.Bytes()
	if err != nil || !bytes.Equal(b, mb) {
		c.FailFor([]string{"B06", "B03"}, "proof-bytes", "proof encodes to\n%x (%v)\nby the documented layout it is\n%x", b, err, mb)
	}
	switch r.Intn(3) {
	case 0:
		return p
	case 1:
		q, used, err := iotago.OutputIDProofFromBytes(n.api)(b)
		if err != nil || used != len(b) {
			c.FailFor([]string{"B06", "B03"}, "proof-lost", "proof does not decode: %v\n%x", err, b)
		}
		return q
	}
	txt, err := n.api.JSONEncode(p, serix.WithValidation())
	if err != nil {
		c.FailFor([]string{"B06", "B03"}, "proof-lost", "proof has no JSON: %v\n%x", err, b)
	}
	q := new(iotago.OutputIDProof)
	if err := n.api.JSONDecode(txt, q, serix.WithValidation()); err != nil {
		c.FailFor([]string{"B06", "B03"}, "proof-lost", "proof does not decode: %v\n%s", err, txt)
	}
	return q
}

// outputProof makes and checks proofs about the outputs of a transaction.
func (w *run) outputProof(r *core.RNG) {
	c := w.c
	var (
		outs   iotago.TxEssenceOutputs
		mo     []*model.Output
		i      int
		commit model.Hash
		slot   uint32
		p      *iotago.OutputIDProof
		err    error
		o      = &object{k: kProof}
	)
	c.Evals++
	if len(w.m.txs) > 0 && r.Pct(50) {
		t := core.Pick(r, w.m.txs).Tx
		mo, slot, commit = t.Outputs, t.CreationSlot, model.Blake(model.EncEssence(t))
		tx := w.m.real(&object{k: kTx, b: model.EncTx(t)}).(*iotago.Transaction)
		outs = tx.Outputs
		i = r.Intn(len(mo))
		w.guard("proving", o, nil, func() { p, err = iotago.OutputIDProofFromTransaction(tx, uint16(i)) })
	} else {
		outs, mo, i = w.m.outputs(r)
		slot, commit = r.U32(), r.Hash()
		w.guard("proving", o, nil, func() {
			p, err = iotago.NewOutputIDProof(w.n.api, commit, iotago.SlotIndex(slot), outs, uint16(i))
		})
	}
	if err != nil || p == nil {
		c.FailFor(b06(), "no-proof", "no proof for output %d of %d: %v", i, len(outs), err)
	}
	if r.Pct(10) {
		k := len(outs) + r.Intn(3)
		if _, err := iotago.NewOutputIDProof(w.n.api, commit, iotago.SlotIndex(slot), outs, uint16(k)); err == nil {
			c.FailFor(b06(), "no-output", "a proof was made for output %d of %d", k, len(outs))
		}
	}
	leaves := make([][]byte, len(mo))
	for k, x := range mo {
		leaves[k] = model.EncOutput(x)
	}
	root := model.Merkle(leaves)
	h := model.Blake(commit[:], root[:])
	var txID model.ID36
	copy(txID[:], h[:])
	txID[32], txID[33], txID[34], txID[35] = byte(slot), byte(slot>>8), byte(slot>>16), byte(slot>>24)
	honest := makeTree(leaves, i)
	head := func(s uint32, idx uint16, cm model.Hash) []byte {
		b := []byte{byte(s), byte(s >> 8), byte(s >> 16), byte(s >> 24), byte(idx), byte(idx >> 8)}
		return append(b, cm[:]...)
	}
	mb := append(head(slot, uint16(i), commit), honest.enc()...)
	p = w.transport(r, p, mb)
	// verify asks the real code about an output.
	verify := func(p *iotago.OutputIDProof, out iotago.TxEssenceOutput, pb []byte) (id iotago.OutputID, err error) {
		err = errors.New("panic")
		w.guard("verifying", o, pb, func() { id, err = p.OutputID(out) })
		return
	}
	id, err := verify(p, outs[i], mb)
	want := model.OutID(txID, uint16(i))
	if err != nil || !bytes.Equal(id[:], want[:]) {
		c.FailFor(b06(), "proof-fails", "proof of output %d of %d gives %x (%v) instead of %x\n%x", i, len(outs), id[:], err, want, mb)
	}
	c.State("oproof", fmt.Sprint(len(outs), i))
	// Other outputs.
	for n := 0; n < 3; n++ {
		j := r.Intn(len(outs))
		if bytes.Equal(leaves[j], leaves[i]) {
			continue
		}
		if id, err := verify(p, outs[j], mb); err == nil {
			c.FailFor(b06(), "forged", "proof of output %d gives %x for output %d\n%x", i, id[:], j, mb)
		}
	}
	foreign := core.Pick(r, w.m.pool.Coins)
	fb := model.EncOutput(foreign.O)
	// A liar.
	c.Fault("proof-attack")
	var others []*tree
	values := [][]byte{fb}
	for k := 0; k < 3; k++ {
		j := r.Intn(len(leaves))
		others = append(others, makeTree(leaves, j))
		values = append(values, leaves[j])
	}
	fl := [][]byte{fb, leaves[0]}
	others = append(others, makeTree(fl, r.Intn(2)))
	var ab []byte
	s2, i2, c2 := slot, uint16(i), commit
	switch r.Intn(6) {
	case 0:
		i2 = uint16(r.Intn(len(leaves) + 2))
	case 1:
		s2 ^= 1 << uint(r.Intn(32))
	case 2:
		c2[r.Intn(32)] ^= 1 << uint(r.Intn(8))
	}
	if r.Pct(25) {
		ab = ledger.Damage(r, mb)
	} else {
		t := honest
		if r.Pct(80) {
			t = attack(r, honest, others, values)
		}
		ab = append(head(s2, i2, c2), t.enc()...)
	}
	outL := []iotago.TxEssenceOutput{outs[i], outs[r.Intn(len(outs))], w.m.real(&object{k: kOutput, b: fb}).(iotago.TxEssenceOutput)}
	outB := [][]byte{leaves[i], nil, fb}
	for k := range outs {
		if outs[k] == outL[1] {
			outB[1] = leaves[k]
		}
	}
	w.guard("decoding", o, ab, func() {
		q, used, err := iotago.OutputIDProofFromBytes(w.n.api)(ab)
		var t *tree
		var ok bool
		var rest []byte
		if len(ab) >= 38 {
			t, rest, ok = decTree(ab[38:], 0)
		}
		if (err == nil) != ok || ok && used != len(ab)-len(rest) {
			c.FailFor([]string{"B06", "B03"}, "proof-decode", "proof decodes: %v (%v, %d bytes), by the documented layout: %v\n%x", err == nil, err, used, ok, ab)
		}
		if err != nil {
			c.Count("proof-refused")
			return
		}
		root := t.root()
		for k, out := range outL {
			c.Evals++
			id, err := verify(q, out, ab)
			in := t.contains(leafHash(outB[k]))
			if (err == nil) != (in && len(root) == 32) && !(in && len(root) != 32) {
				c.FailFor(b06(), "forged", "proof accepted=%v (%v) for output\n%x\nit contains it: %v\n%x", err == nil, err, outB[k], in, ab)
			}
			if err != nil {
				c.Count("proof-fails")
				continue
			}
			c.Count("attack-verifies")
			if !bytes.Equal(id[:36], txID[:]) {
				c.State("attack", "other-id")
				continue
			}
			// It claims to be an output of this transaction.
			idx := int(id.Index())
			if idx < len(leaves) && bytes.Equal(leaves[idx], outB[k]) {
				c.State("attack", "true")
				continue
			}
			member := false
			for _, l := range leaves {
				member = member || bytes.Equal(l, outB[k])
			}
			if member {
				if c.Prop == "B06" {
					c.Finding("output-index", "forged", "an altered proof gives ID %x for an output that is another output of the same transaction\n%x", id[:], ab)
				}
				continue
			}
			c.FailFor(b06(), "forged", "an altered proof gives ID %x for an output that is not in the transaction\n%x\nproof\n%x", id[:], outB[k], ab)
		}
	})
}

// rootsProof checks the proofs that tie a slot's roots to its commitment.
func (w *run) rootsProof(r *core.RNG) {
	c := w.c
	c.Evals++
	var ids [8]iotago.Identifier
	for i := range ids {
		ids[i] = r.Hash()
		if r.Pct(10) && i > 0 {
			ids[i] = ids[i-1]
		}
		if r.Pct(5) {
			ids[i] = iotago.Identifier{}
		}
	}
	// tangle, mutation, attestations, state, account, committee, rewards, parameters
	roots := iotago.NewRoots(ids[0], ids[1], ids[4], ids[2], ids[3], ids[5], ids[6], ids[7])
	leaves := make([][]byte, 8)
	for i := range ids {
		leaves[i] = append([]byte{}, ids[i][:]...)
	}
	root := model.Merkle(leaves)
	o := &object{k: &kind{name: "rootsproof"}}
	w.guard("roots", o, nil, func() {
		if id := roots.ID(); id != iotago.Identifier(root) {
			c.FailFor(b06(), "roots", "roots have ID %x, by the documented tree it is %x", id[:], root)
		}
		k := core.Pick(r, []int{0, 1, 4})
		var p *merklehasher.Proof[iotago.Identifier]
		switch k {
		case 0:
			p = roots.TangleProof()
		case 1:
			p = roots.MutationProof()
		case 4:
			p = roots.AttestationsProof()
		}
		honest := makeTree(leaves, k)
		p = sendProof(w, r, p, honest.enc())
		if !iotago.VerifyProof(p, ids[k], iotago.Identifier(root)) {
			c.FailFor(b06(), "proof-fails", "proof of root %d does not verify", k)
		}
		for j := range ids {
			if ids[j] != ids[k] && iotago.VerifyProof(p, ids[j], iotago.Identifier(root)) {
				c.FailFor(b06(), "forged", "proof of root %d verifies for root %d", k, j)
			}
		}
		other := iotago.Identifier(root)
		other[r.Intn(32)] ^= 1 << uint(r.Intn(8))
		if iotago.VerifyProof(p, ids[k], other) || iotago.VerifyProof(p, ids[k], iotago.Identifier(r.Hash())) {
			c.FailFor(b06(), "forged", "proof of root %d verifies against another tree", k)
		}
		c.State("rproof", fmt.Sprint(k))
		c.Fault("proof-attack")
		lie := iotago.Identifier(r.Hash())
		t := attack(r, honest, []*tree{makeTree(leaves, r.Intn(8)), makeTree([][]byte{lie[:], leaves[0]}, 0)}, [][]byte{lie[:], leaves[r.Intn(8)]})
		attackProof(w, t.enc(), [][]byte{lie[:], leaves[k], leaves[r.Intn(8)]}, leaves, root, func(p *merklehasher.Proof[iotago.Identifier], v []byte) bool {
			return iotago.VerifyProof(p, iotago.Identifier(v), iotago.Identifier(root))
		})
	})
}

// sendProof sends a proof through bytes or text.
func sendProof[V merklehasher.Value](w *run, r *core.RNG, p *merklehasher.Proof[V], mb []byte) *merklehasher.Proof[V] {
	c := w.c
	b, err := p.Bytes()
	if err != nil || !bytes.Equal(b, mb) {
		c.FailFor([]string{"B06", "B03"}, "proof-bytes", "proof encodes to\n%x (%v)\nby the documented layout it is\n%x", b, err, mb)
	}
	switch r.Intn(3) {
	case 0:
		return p
	case 1:
		q, n, err := merklehasher.ProofFromBytes[V](b)
		if err != nil || n != len(b) {
			c.FailFor([]string{"B06", "B03"}, "proof-lost", "proof does not decode: %v\n%x", err, b)
		}
		return q
	}
	txt, err := p.JSONEncode()
	if err != nil {
		c.FailFor([]string{"B06", "B03"}, "proof-lost", "proof has no JSON: %v\n%x", err, b)
	}
	q, err := merklehasher.ProofFromJSON[V](txt)
	if err != nil {
		c.FailFor([]string{"B06", "B03"}, "proof-lost", "proof does not decode: %v\n%s", err, txt)
	}
	return q
}

// attackProof lets a liar present a proof about members of a list.
func attackProof[V merklehasher.Value](w *run, pb []byte, values, leaves [][]byte, root model.Hash, verify func(*merklehasher.Proof[V], []byte) bool) {
	c := w.c
	p, _, err := merklehasher.ProofFromBytes[V](pb)
	t, _, ok := decTree(pb, 0)
	if (err == nil) != ok {
		c.FailFor([]string{"B06", "B03"}, "proof-decode", "proof decodes: %v (%v), by the documented layout: %v\n%x", err == nil, err, ok, pb)
	}
	if err != nil {
		c.Count("proof-refused")
		return
	}
	if len(t.root()) != 32 {
		// A proof that consists of a hash of another size: there is no identifier it could be the hash of.
		c.Count("odd-root")
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(core.Stop); ok {
					panic(x)
				}
				c.FailFor([]string{"B06", "C03"}, "panic", "verifying a proof with a hash of %d bytes panics: %v\n%x", len(t.root()), x, pb)
			}
		}()
	}
	for _, v := range values {
		c.Evals++
		got := verify(p, v)
		want := t.contains(leafHash(v)) && bytes.Equal(t.root(), root[:])
		if got != want {
			c.FailFor(b06(), "forged", "proof verifies: %v, by the documented tree: %v\n%x", got, want, pb)
		}
		if got {
			member := false
			for _, l := range leaves {
				member = member || bytes.Equal(l, v)
			}
			if !member {
				c.FailFor(b06(), "forged", "a proof verifies for a value that is not in the tree\n%x", pb)
			}
			c.State("attack", "member")
		}
	}
}

// listProof checks proofs of membership in lists of identifiers.
func (w *run) listProof(r *core.RNG) {
	n := r.Range(1, 12)
	switch r.Intn(6) {
	case 0:
		n = r.Range(13, 70)
	case 1:
		n = 1 << uint(r.Intn(7))
	case 2:
		n = 1<<uint(r.Intn(7)) + 1
	}
	size := core.Pick(r, []int{32, 36, 36})
	leaves := make([][]byte, n)
	for i := range leaves {
		leaves[i] = r.Bytes(size)
		if i > 0 && r.Pct(3) {
			leaves[i] = leaves[r.Intn(i)]
		}
	}
	o := &object{k: &kind{name: "listproof"}}
	w.guard("list proof", o, nil, func() {
		switch {
		case size == 32:
			vs := make([]iotago.Identifier, n)
			for i := range vs {
				vs[i] = iotago.Identifier(leaves[i])
			}
			listOf(w, r, vs, leaves)
		case r.Bool():
			vs := make([]iotago.BlockID, n)
			for i := range vs {
				vs[i] = iotago.BlockID(leaves[i])
			}
			listOf(w, r, vs, leaves)
		default:
			vs := make([]iotago.TransactionID, n)
			for i := range vs {
				vs[i] = iotago.TransactionID(leaves[i])
			}
			listOf(w, r, vs, leaves)
		}
	})
}

func listOf[V merklehasher.Value](w *run, r *core.RNG, vs []V, leaves [][]byte) {
	c := w.c
	c.Evals++
	h := merklehasher.NewHasher[V](crypto.BLAKE2b_256)
	root := model.Merkle(leaves)
	if b, err := h.HashValues(vs); err != nil || !bytes.Equal(b, root[:]) {
		c.FailFor(b06(), "root", "%d values hash to %x (%v), by the documented tree it is %x", len(vs), b, err, root)
	}
	e := model.Blake(nil)
	if !bytes.Equal(h.EmptyRoot(), e[:]) {
		c.FailFor(b06(), "root", "empty root is %x", h.EmptyRoot())
	}
	if b, err := h.HashValues(vs[:0]); err != nil || !bytes.Equal(b, e[:]) {
		c.FailFor(b06(), "root", "no values hash to %x (%v)", b, err)
	}
	if p, err := h.ComputeProofForIndex(vs[:0], 0); err == nil {
		c.FailFor(b06(), "no-value", "a proof was made for a value of an empty list: %v", p)
	}
	i := r.Intn(len(vs))
	if i > 0 && r.Pct(20) {
		i = len(vs) - 1
	}
	var p *merklehasher.Proof[V]
	var err error
	if r.Bool() {
		p, err = h.ComputeProofForIndex(vs, i)
	} else {
		p, err = h.ComputeProof(vs, vs[i])
		for j := range leaves {
			if bytes.Equal(leaves[j], leaves[i]) {
				i = j
				break
			}
		}
	}
	if err != nil {
		c.FailFor(b06(), "no-proof", "no proof for value %d of %d: %v", i, len(vs), err)
	}
	if _, err := h.ComputeProofForIndex(vs, len(vs)+r.Intn(2)); err == nil {
		c.FailFor(b06(), "no-value", "a proof was made for a value beyond the list")
	}
	if j := r.Intn(len(vs)); j > 0 {
		if _, err := h.ComputeProof(vs[:j], vs[j]); err == nil {
			in := false
			for _, l := range leaves[:j] {
				in = in || bytes.Equal(l, leaves[j])
			}
			if !in {
				c.FailFor(b06(), "no-value", "a proof was made for a value that is not in the list")
			}
		}
	}
	honest := makeTree(leaves, i)
	p = sendProof(w, r, p, honest.enc())
	verify := func(p *merklehasher.Proof[V], b []byte) bool {
		for j := range leaves {
			if bytes.Equal(leaves[j], b) {
				ok, err := p.ContainsValue(vs[j], h)
				return err == nil && ok && bytes.Equal(p.Hash(h), root[:])
			}
		}
		return false
	}
	for n := 0; n < 4; n++ {
		j := r.Intn(len(vs))
		if n == 0 {
			j = i
		}
		if got := verify(p, leaves[j]); got != bytes.Equal(leaves[j], leaves[i]) {
			c.FailFor(b06(), "forged", "proof of value %d of %d verifies for value %d: %v", i, len(vs), j, got)
		}
	}
	c.State("lproof", fmt.Sprint(len(vs), i))
	c.Fault("proof-attack")
	pb := attack(r, honest, []*tree{makeTree(leaves, r.Intn(len(leaves))), makeTree(leaves[:1], 0)}, [][]byte{leaves[r.Intn(len(leaves))], leaves[0]}).enc()
	if r.Pct(20) {
		pb = ledger.Damage(r, pb)
	}
	attackProof(w, pb, [][]byte{leaves[i], leaves[r.Intn(len(leaves))], leaves[0]}, leaves, root, verify)
}

// hostileProof feeds rubbish that looks like proofs.
func (w *run) hostileProof(r *core.RNG) {
	c := w.c
	c.Evals++
	c.Fault("hostile-proof")
	out := core.Pick(r, w.m.pool.Coins)
	ob := model.EncOutput(out.O)
	ro := w.m.real(&object{k: kOutput, b: ob}).(iotago.TxEssenceOutput)
	o := &object{k: kProof}
	// bytes
	var gen func(d int) []byte
	gen = func(d int) []byte {
		switch r.Weighted(4, 3, 3, 1) {
		case 0:
			if d < 12 {
				return append(append([]byte{0}, gen(d+1)...), gen(d+1)...)
			}
		case 1:
			n := core.Pick(r, []int{0, 1, 31, 32, 32, 32, 33, 64, 255})
			return append([]byte{1, byte(n)}, r.Bytes(n)...)
		case 3:
			return []byte{byte(r.Intn(256))}
		}
		return append([]byte{2, 32}, leafHash(ob)...)
	}
	pb := append(r.Bytes(38), gen(0)...)
	if r.Pct(20) {
		// a narrow deep tree
		d := r.Range(1, 1500)
		pb = append(r.Bytes(38), bytes.Repeat([]byte{0}, d)...)
		for i := 0; i <= d; i++ {
			pb = append(append(pb, 2, 32), leafHash(ob)...)
		}
	}
	w.guard("checking", o, pb, func() {
		q, _, err := iotago.OutputIDProofFromBytes(w.n.api)(pb)
		t, _, ok := decTree(pb[38:], 0)
		if (err == nil) != ok {
			c.FailFor([]string{"B06", "B03"}, "proof-decode", "proof decodes: %v (%v), by the documented layout: %v\n%x", err == nil, err, ok, pb)
		}
		if err != nil {
			c.Count("proof-refused")
			return
		}
		id, err := q.OutputID(ro)
		in := t.contains(leafHash(ob))
		if len(t.root()) != 32 {
			if err == nil && in {
				// 32 byte identifiers are made from a hash of another size
				c.FailFor(b06(), "odd-root", "a proof whose root has %d bytes gives ID %x\n%x", len(t.root()), id[:], pb)
			}
			return
		}
		if (err == nil) != in {
			c.FailFor(b06(), "forged", "proof accepted=%v (%v), it contains the output: %v\n%x", err == nil, err, in, pb)
		}
		if err == nil {
			h := model.Blake(pb[6:38], t.root())
			want := append(append([]byte{}, h[:]...), pb[:6]...)
			if !bytes.Equal(id[:], want) {
				c.FailFor(b06(), "id", "proof gives ID %x, by the documented derivation it is %x\n%x", id[:], want, pb)
			}
		}
		c.State("hostile", strings.Repeat("x", min(len(t.all()), 8)))
	})
	// text
	txts := []string{`null`, `{}`, `{"type":0}`, `{"type":0,"l":null,"r":null}`, `{"type":0,"l":{"type":2,"hash":"0x"},"r":{"type":1,"hash":"0x00"}}`,
		`{"type":2}`, `{"type":3}`, `{"type":2,"hash":"0x` + hx(leafHash(ob)) + `"}`, `{"type":0,"l":{},"r":{}}`, `[]`, `1`}
	txt := core.Pick(r, txts)
	full := fmt.Sprintf(`{"slot":1,"outputIndex":0,"transactionCommitment":"0x%x","outputCommitmentProof":%s}`, r.Hash(), txt)
	w.guard("JSON decoding", o, []byte(full), func() {
		q := new(iotago.OutputIDProof)
		if err := w.n.api.JSONDecode([]byte(full), q, serix.WithValidation()); err != nil {
			c.Count("json-refused")
			return
		}
		_, _ = q.OutputID(ro)
		c.State("hostile-json", txt)
	})
	w.guard("JSON decoding", o, []byte(txt), func() {
		q, err := merklehasher.ProofFromJSON[iotago.Identifier]([]byte(txt))
		if err != nil {
			return
		}
		_ = iotago.VerifyProof(q, iotago.Identifier(r.Hash()), iotago.Identifier(r.Hash()))
	})
}
