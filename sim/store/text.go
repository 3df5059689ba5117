package store

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf8"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/sim/core"
	"verif.local/sim/ledger"
	"verif.local/sim/model"
)

// Texts is the world of address books: processes write addresses as text to a file, which tears and rots, and send
// them to each other over links that damage them.
type Texts struct{}

func (Texts) Plan(r *core.RNG, prop, tier string) []core.Op {
	n := r.Range(20, 50)
	if tier == "thorough" {
		n = r.Range(40, 150)
	}
	ops := make([]core.Op, n)
	kinds := []string{"write", "sync", "crash", "rot", "read", "send", "forge"}
	for i := range ops {
		ops[i] = core.Op{K: kinds[r.Weighted(10, 3, 2, 3, 3, 20, 12)], S: r.U64()}
	}
	return ops
}

// entry is an address as it was written.
type entry struct {
	a    *model.Addr
	hrp  string // as given by the network
	text string
	off  int
}

type texts struct {
	c     *core.Ctx
	es    []*entry
	disk  []byte
	sync  int
	saved int // entries within the synced part
}

func (Texts) Run(c *core.Ctx) {
	w := &texts{c: c}
	for _, op := range c.Plan.Ops {
		r := core.NewRNG(op.S)
		c.Steps++
		c.RunUntil(c.Now() + int64(r.Intn(1_000_000_000)))
		switch op.K {
		case "write":
			e := w.make(r)
			e.off = len(w.disk)
			w.disk = append(append(w.disk, e.text...), '\n')
			w.es = append(w.es, e)
		case "sync":
			w.sync, w.saved = len(w.disk), len(w.es)
		case "crash":
			w.crash(r)
		case "rot":
			if len(w.disk) > 0 && c.On("rot") {
				c.Fault("rot")
				for k := r.Range(1, 4); k > 0; k-- {
					i := r.Intn(len(w.disk))
					switch r.Intn(3) {
					case 0:
						w.disk[i] ^= 1 << r.Intn(8)
					case 1:
						w.disk[i] = byte(r.Intn(256))
					default:
						w.disk[i] = bechLetters[r.Intn(32)]
					}
				}
			}
		case "read":
			w.read()
		case "send":
			w.send(r, w.any(r))
		case "forge":
			w.forge(r, w.any(r))
		}
	}
	w.crash(c.Rng)
}

func (w *texts) any(r *core.RNG) *entry {
	if len(w.es) > 0 && r.Bool() {
		return core.Pick(r, w.es)
	}
	return w.make(r)
}

const bechLetters = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

var plainKinds = []byte{model.AddrEd25519, model.AddrAccount, model.AddrNFT, model.AddrAnchor}

func textAddr(r *core.RNG, inner bool) *model.Addr {
	leaf := func(k byte) *model.Addr {
		a := &model.Addr{Kind: k, ID: r.Hash()}
		switch r.Intn(6) {
		case 0: // long runs of the same character
			for i := r.Intn(32); i < 32; i++ {
				a.ID[i] = 0
			}
		case 1:
			for i := 0; i < r.Intn(33); i++ {
				a.ID[i] = 0xff
			}
		}
		return a
	}
	switch r.Weighted(4, 2, 3, 4) {
	case 1:
		if !inner {
			return leaf(model.AddrImplicit)
		}
	case 2:
		a := &model.Addr{Kind: model.AddrMulti}
		sum := 0
		for k := r.Range(2, 10); k > 0; k-- {
			m := model.Member{Addr: leaf(core.Pick(r, plainKinds)), Weight: byte(r.Range(1, 255))}
			a.Members = append(a.Members, m)
		}
		a.Members = ledger.SortMembers(a.Members)
		for _, m := range a.Members {
			sum += int(m.Weight)
		}
		a.Threshold = uint16(r.Range(1, sum))
		if len(a.Members) > 1 {
			return a
		}
	case 3:
		if !inner {
			a := &model.Addr{Kind: model.AddrRestricted, Inner: textAddr(r, true)}
			switch r.Intn(4) {
			case 1:
				a.Caps = []byte{byte(r.Range(1, 255))}
			case 2, 3:
				a.Caps = []byte{byte(r.Intn(256)), byte(r.Range(1, 255))}
			}
			return a
		}
	}
	return leaf(core.Pick(r, plainKinds))
}

// payload is what the text of an address carries: multi addresses are represented by their hash.
func payload(a *model.Addr) []byte {
	switch a.Kind {
	case model.AddrMulti:
		h := model.Blake(model.EncAddr(a))
		return append([]byte{a.Kind}, h[:]...)
	case model.AddrRestricted:
		b := append([]byte{a.Kind}, payload(a.Inner)...)
		b = append(b, byte(len(a.Caps)))
		return append(b, a.Caps...)
	}
	return model.EncAddr(a)
}

func prefix(r *core.RNG) string {
	switch r.Intn(8) {
	case 0, 1:
		return "iota"
	case 2:
		return "smr"
	case 3:
		return "rms"
	case 4:
		return core.Pick(r, []string{"1", "a", "11", "a1b", "i1", "test1", "?", "~!", "tst-net", "b1k"})
	case 5:
		const any = "abcdefghijklmnopqrstuvwxyz0123456789!#$%&'()*+-./:;<=>?@[]^_`{|}~"
		n := r.Range(1, 23)
		s := ""
		for i := 0; i < n; i++ {
			s += string(any[r.Intn(len(any))])
		}
		return s
	}
	const az = "abcdefghijklmnopqrstuvwxyz"
	s := ""
	for n := r.Range(1, 10); n > 0; n-- {
		s += string(az[r.Intn(26)])
	}
	return s
}

// make lets a process write an address as text and compares it with the reference.
func (w *texts) make(r *core.RNG) *entry {
	c := w.c
	e := &entry{a: textAddr(r, false), hrp: prefix(r)}
	var real iotago.Address
	w.guard("decode", "", func() {
		a, n, err := iotago.AddressFromBytes(model.EncAddr(e.a))
		if err != nil || n != len(model.EncAddr(e.a)) {
			c.FailFor([]string{"B02", "B03"}, "decode", "address %x: %v, %d bytes", model.EncAddr(e.a), err, n)
		}
		real = a
	})
	if r.Pct(30) {
		real = real.Clone()
	}
	want := model.BechEncode(e.hrp, payload(e.a))
	upper := r.Pct(20)
	hrp := e.hrp
	if upper {
		hrp, want = strings.ToUpper(hrp), strings.ToUpper(want)
		if hrp == e.hrp { // no letters: there is only the lower form
			want = strings.ToLower(want)
		}
	}
	w.guard("Bech32", "", func() { e.text = real.Bech32(iotago.NetworkPrefix(hrp)) })
	c.Evals++
	c.Check(e.text == want, "text", "address %x with prefix %+q is written as %+q instead of %+q", payload(e.a), hrp, e.text, want)
	c.State("made", fmt.Sprint(e.a.Kind, e.a.Resolve().Kind, len(e.a.Caps), len(hrp), upper))
	w.intact(e, e.text)
	w.intact(e, strings.ToUpper(e.text))
	w.intact(e, strings.ToLower(e.text))
	return e
}

func (w *texts) guard(what, text string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(core.Stop); ok {
				panic(x)
			}
			w.c.Fail("panic", "%s of %+q panics: %v", what, text, x)
		}
	}()
	f()
}

func (w *texts) parse(text string) (hrp iotago.NetworkPrefix, a iotago.Address, err error) {
	w.guard("ParseBech32", text, func() { hrp, a, err = iotago.ParseBech32(text) })
	return
}

// intact judges a text that arrived as it was written, or in the other case.
func (w *texts) intact(e *entry, text string) {
	c := w.c
	c.Evals++
	hrp, a, err := w.parse(text)
	c.Check(err == nil, "refused", "the text %+q of address %x is refused: %v", text, payload(e.a), err)
	c.Check(string(hrp) == strings.ToLower(e.hrp), "prefix", "the text %+q with prefix %+q parses with prefix %+q", text, e.hrp, hrp)
	w.guard("use", text, func() {
		c.Check(byte(a.Type()) == e.a.Kind, "kind", "the text %+q of an address of type %d parses as %d", text, e.a.Kind, a.Type())
		p := payload(e.a)
		var id []byte
		switch e.a.Kind {
		case model.AddrMulti, model.AddrRestricted:
			id = p // the identity of these contains everything
		default:
			id = p[1:]
		}
		ok := bytes.HasSuffix(a.ID(), id)
		c.Check(ok, "identity", "the text %+q of address %x parses to the address %x", text, p, a.ID())
		if e.a.Resolve().Kind != model.AddrMulti {
			o, _, err := iotago.AddressFromBytes(model.EncAddr(e.a))
			c.Check(err == nil && a.Equal(o) && o.Equal(a) && a.Key() == o.Key(), "identity",
				"the text %+q of address %x parses to an address that is not equal to it", text, p)
		} else {
			o, _, err := iotago.AddressFromBytes(model.EncAddr(e.a))
			c.Check(err == nil && a.Key() == o.Key() && a.Clone().Key() == o.Key(), "identity",
				"the text %+q of address %x parses to an address with another key", text, p)
		}
		again := a.Bech32(hrp)
		c.Check(again == strings.ToLower(text), "render", "the text %+q parses and is rendered as %+q", text, again)
	})
}

// damaged judges any text.
func (w *texts) damaged(how string, e *entry, text string, detect bool) {
	c := w.c
	c.Evals++
	if e != nil && (text == e.text || text == strings.ToUpper(e.text) || text == strings.ToLower(e.text)) {
		w.intact(e, text)
		return
	}
	hrp, a, err := w.parse(text)
	if err != nil {
		c.State("refused", how)
		return
	}
	c.State("parsed", how)
	c.Count("damaged-parsed")
	c.Logf("damaged %+q parses", text)
	if detect {
		c.Fail("undetected", "the text %+q, %s of %+q, parses", text, how, e.text)
	}
	var again string
	w.guard("rendering", text, func() { again = a.Bech32(hrp) })
	same := again == text
	if !same && strings.ToUpper(text) == text && utf8.ValidString(text) {
		same = strings.ToUpper(again) == text
	}
	c.Check(same, "lenient", "the text %+q (%s) parses as prefix %+q and address %x, which is written %+q", text, how, hrp, a.ID(), again)
	// what parses is what the text says
	h, p, err := model.BechDecode(text)
	c.Check(err == nil && h == string(hrp), "lenient", "the text %+q (%s) parses although it is not bech32: %v", text, how, err)
	c.Check(bytes.HasSuffix(p, a.ID()), "identity", "the text %+q of the bytes %x parses to the address %x", text, p, a.ID())
}

// send transmits an address over a link that damages it.
func (w *texts) send(r *core.RNG, e *entry) {
	c := w.c
	t := []byte(e.text)
	sep := strings.LastIndexByte(e.text, '1')
	upper := e.text != strings.ToLower(e.text)
	letter := func() byte {
		x := bechLetters[r.Intn(32)]
		if upper {
			return strings.ToUpper(string(x))[0]
		}
		return x
	}
	how, detect := "", false
	switch r.Weighted(8, 4, 3, 3, 2, 2, 4, 3, 3, 3) {
	case 0: // up to four characters of the data part
		how, detect = "substitution", true
		for k := r.Range(1, 4); k > 0; k-- {
			t[sep+1+r.Intn(len(t)-sep-1)] = letter()
		}
	case 1: // up to four characters anywhere
		how = "garbage"
		for k := r.Range(1, 4); k > 0; k-- {
			t[r.Intn(len(t))] = byte(r.Intn(256))
		}
	case 2:
		how = "truncation"
		if r.Bool() {
			t = t[:r.Intn(len(t)+1)]
		} else {
			t = t[r.Intn(len(t)+1):]
		}
	case 3:
		how = "extension"
		for k := r.Range(1, 8); k > 0; k-- {
			x := letter()
			switch r.Intn(4) {
			case 0:
				x = byte(r.Intn(256))
			case 1:
				x = ' '
			}
			i := len(t)
			switch r.Intn(3) {
			case 1:
				i = 0
			case 2:
				i = r.Intn(len(t) + 1)
			}
			t = append(t[:i], append([]byte{x}, t[i:]...)...)
		}
	case 4: // neighbours swapped
		how = "transposition"
		i := r.Intn(len(t) - 1)
		t[i], t[i+1] = t[i+1], t[i]
	case 5:
		how = "loss"
		for k := r.Range(1, 4); k > 0 && len(t) > 0; k-- {
			i := r.Intn(len(t))
			t = append(t[:i], t[i+1:]...)
		}
	case 6:
		how = "case"
		for k := r.Range(1, 4); k > 0; k-- {
			i := r.Intn(len(t))
			if t[i] >= 'a' && t[i] <= 'z' || t[i] >= 'A' && t[i] <= 'Z' {
				t[i] ^= 32
			}
		}
	case 7:
		how = "prefix"
		h := prefix(r)
		if r.Bool() { // a similar one
			h = strings.ToLower(e.hrp)
			switch i := r.Intn(len(h)); r.Intn(5) {
			case 0:
				h += h[i:]
			case 1:
				h = h[:i] + prefix(r) + h[i:]
			case 2:
				h = h[i:] + h[:i]
			case 3:
				h = h[:i] + "1" + h[i:]
			default:
				h = h[:i] + prefix(r)
			}
		}
		t = append([]byte(h+"1"), t[sep+1:]...)
		if upper && r.Bool() {
			t = bytes.ToUpper(t)
		}
	case 8: // characters that other characters turn into when their case is changed
		how = "lookalike"
		s := e.text
		if r.Bool() {
			s = strings.ToUpper(s)
		}
		for _, x := range [][2]string{{"K", "\u212a"}, {"s", "\u017f"}, {"S", "\u017f"}, {"k", "\u212a"}, {"A", "\u00c0"}, {"0", "O"}, {"l", "I"}, {"1", "l"}} {
			if r.Bool() {
				s = strings.Replace(s, x[0], x[1], r.Range(1, 2))
			}
		}
		t = []byte(s)
	case 9: // a part of another text
		how = "mixture"
		o := w.any(r)
		i := r.Intn(len(t) + 1)
		if i > len(o.text) {
			i = len(o.text)
		}
		t = append(append([]byte(nil), t[:i]...), o.text[i:]...)
		if string(t) == o.text || string(t) == strings.ToUpper(o.text) {
			w.intact(o, string(t))
			return
		}
	}
	if !c.On(how) {
		w.intact(e, e.text)
		return
	}
	c.Fault(how)
	w.damaged(how, e, string(t), detect)
}

// forge makes a text with a right checksum for bytes that were changed.
func (w *texts) forge(r *core.RNG, e *entry) {
	c := w.c
	p := append([]byte(nil), payload(e.a)...)
	hrp := strings.ToLower(e.hrp)
	how := ""
	switch r.Intn(8) {
	case 0:
		how = "payload-bits"
		for k := r.Range(1, 3); k > 0; k-- {
			p[r.Intn(len(p))] ^= 1 << r.Intn(8)
		}
	case 1:
		how = "payload-type"
		p[0] = core.Pick(r, []byte{0, 8, 16, 24, 32, 40, 48, 56, byte(r.Intn(256))})
	case 2:
		how = "payload-type"
		i := r.Intn(2)
		p[i] = core.Pick(r, []byte{0, 8, 16, 24, 32, 40, 48})
	case 3:
		how = "payload-cut"
		p = p[:r.Intn(len(p)+1)]
	case 4:
		how = "payload-extended"
		p = append(p, r.Bytes(r.Range(1, 6))...)
	case 5:
		how = "payload-extended"
		p = append(p, make([]byte, r.Range(1, 3))...)
	case 6: // wrapped
		how = "payload-wrapped"
		p = append([]byte{model.AddrRestricted}, p...)
		if r.Bool() {
			p = append(p, byte(r.Intn(4)))
		}
		if r.Bool() {
			p = append(p, r.Bytes(r.Intn(4))...)
		}
	case 7:
		how = "payload-caps"
		if e.a.Kind == model.AddrRestricted {
			p = p[:len(p)-len(e.a.Caps)-1]
			n := r.Intn(5)
			p = append(p, byte(n))
			p = append(p, r.Bytes(n)...)
			if r.Pct(40) {
				p[len(p)-1] = 0
			}
			if r.Pct(20) {
				p = append(p, 0)
			}
		} else {
			p = append(p, 0)
		}
	}
	t := model.BechEncode(hrp, p)
	if r.Pct(15) {
		how = "padding"
		t = model.BechEncodeGroups(hrp, model.BechPad(p, byte(1+r.Intn(31)), r.Intn(3)))
	}
	if r.Pct(20) {
		t = strings.ToUpper(t)
	}
	if !c.On(how) {
		return
	}
	c.Fault(how)
	w.damaged(how, nil, t, false)
	// a text that says something valid has to be understood
	if len(t) > 90 {
		return
	}
	d := &model.R{B: p}
	a := d.Addr()
	if how != "padding" && d.Err == nil && d.Off == len(p) && a.Resolve().Kind != model.AddrMulti {
		w.intact(&entry{a: a, hrp: hrp, text: t}, t)
		c.Count("forged-valid")
	}
}

// read lets a process read its address book.
func (w *texts) read() {
	for i, e := range w.es {
		end := len(w.disk)
		if i+1 < len(w.es) {
			end = w.es[i+1].off
		}
		t := string(w.disk[e.off:end])
		if strings.HasSuffix(t, "\n") {
			t = t[:len(t)-1]
		}
		w.damaged("stored", e, t, false)
	}
}

// crash loses what was not synced, or a part of it. The process starts again and reads its book.
func (w *texts) crash(r *core.RNG) {
	c := w.c
	end := w.sync
	if len(w.disk) > end {
		end += r.Intn(len(w.disk) - end + 1)
	}
	if c.On("crash") {
		c.Fault("crash")
		if end < len(w.disk) {
			c.Fault("torn")
		}
		w.disk = w.disk[:end]
		for len(w.es) > 0 && w.es[len(w.es)-1].off >= len(w.disk) {
			w.es = w.es[:len(w.es)-1]
		}
	}
	w.read()
	// the torn entry is not used any further
	for n := len(w.es); n > 0; n-- {
		if e := w.es[n-1]; e.off+len(e.text)+1 > len(w.disk) {
			w.es = w.es[:n-1]
			w.disk = w.disk[:e.off]
		}
	}
	w.sync = len(w.disk)
}
