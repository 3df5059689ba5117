package store

import (
	"bytes"
	"crypto/ed25519"
	"crypto/hmac"
	crand "crypto/rand"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"strings"

	"golang.org/x/crypto/pbkdf2"

	"github.com/iotaledger/iota-crypto-demo/pkg/bip39"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/wallet"

	"verif.local/sim/conc"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

// Wallets is the world of wallets that crash and are restored from what their users wrote down.
type Wallets struct{}

func (Wallets) Plan(r *core.RNG, prop, tier string) []core.Op {
	ops := []core.Op{{K: "schedule", S: r.U64()}}
	for lives := r.Range(1, 4); lives > 0; lives-- {
		for t := r.Range(1, 3); t > 0; t-- {
			for k := r.Range(1, 5); k > 0; k-- {
				ops = append(ops, core.Op{K: fmt.Sprint("thread", t), S: r.U64()})
			}
		}
		ops = append(ops, core.Op{K: "crash", S: r.U64()})
	}
	return ops
}

// Reference derivation: SLIP-10 for ed25519 and the seed of BIP-39.

func slip10(seed []byte, path []uint32) ed25519.PrivateKey {
	mac := func(key []byte, parts ...[]byte) []byte {
		h := hmac.New(sha512.New, key)
		for _, p := range parts {
			h.Write(p)
		}
		return h.Sum(nil)
	}
	i := mac([]byte("ed25519 seed"), seed)
	for _, x := range path {
		i = mac(i[32:], []byte{0}, i[:32], binary.BigEndian.AppendUint32(nil, x))
	}
	return ed25519.NewKeyFromSeed(i[:32])
}

func bip39seed(words []string) []byte {
	return pbkdf2.Key([]byte(strings.Join(words, " ")), []byte("mnemonic"), 2048, 64, sha512.New)
}

// vault is what a user keeps outside of the wallet.
type vault struct {
	kind  string
	path  []uint32 // hardened
	text  string   // of the path
	words []string
	seed  []byte // the reference's
}

func (v *vault) at(index ...uint32) []uint32 {
	p := append([]uint32(nil), v.path...)
	if len(index) > 0 {
		p[4] = index[0] | 1<<31
	}
	return p
}

func (v *vault) key(index ...uint32) ed25519.PrivateKey { return slip10(v.seed, v.at(index...)) }

func pathText(p []uint32) string {
	s := "m"
	for _, x := range p {
		s += fmt.Sprintf("/%d'", x&^(1<<31))
	}
	return s
}

func newVault(r *core.RNG) *vault {
	v := &vault{kind: []string{"mnemonic", "seed", "random"}[r.Weighted(4, 3, 3)]}
	switch r.Intn(5) {
	case 0, 1:
		v.text = wallet.DefaultIOTAPath
		v.path = []uint32{44, 4218, 0, 0, 0}
	case 2:
		v.text = wallet.DefaultShimmerPath
		v.path = []uint32{44, 4219, 0, 0, 0}
	default:
		for n := r.Range(5, 7); n > 0; n-- {
			v.path = append(v.path, walletIndex(r))
		}
	}
	for i := range v.path {
		v.path[i] |= 1 << 31
	}
	if v.text == "" {
		v.text = pathText(v.path)
		if r.Bool() {
			v.text = strings.ReplaceAll(v.text, "'", "H")
		}
	}
	switch v.kind {
	case "mnemonic":
		v.words, _ = bip39.EntropyToMnemonic(entropyBytes(r, 32))
		v.seed = bip39seed(v.words)
	case "seed":
		v.seed = r.Bytes([]int{16, 32, 64, 64, r.Range(1, 80)}[r.Intn(5)])
	}
	return v
}

// entropyBytes leaves out what the known finding leading-zero-mnemonic is about.
func entropyBytes(r *core.RNG, n int) []byte {
	b := r.Bytes(n)
	b[0] |= 1
	return b
}

func walletIndex(r *core.RNG) uint32 {
	switch r.Intn(6) {
	case 0:
		return 1<<31 - 1 - uint32(r.Intn(2))
	case 1:
		return r.U32() >> 1
	case 2:
		return 1 << r.Intn(31)
	}
	return uint32(r.Intn(4))
}

// life is one process that uses the vaults.
type life struct {
	vs      []*vault
	kms     []*wallet.KeyManager
	signers []iotago.AddressSigner // of the managers' first keys
	held    [][]uint32
}

// written gives the words as a user types them in again.
func written(r *core.RNG, words []string) string {
	switch r.Intn(4) {
	case 0:
		return " " + strings.Join(words, "  ") + "\n"
	case 1:
		return strings.Join(words, "\n")
	}
	return strings.Join(words, " ")
}

func (v *vault) open(r *core.RNG) (*wallet.KeyManager, error) {
	if v.words != nil {
		return wallet.NewKeyManagerFromMnemonic(written(r, v.words), v.text)
	}
	b := append([]byte(nil), v.seed...)
	km, err := wallet.NewKeyManager(b, v.text)
	if r.Bool() {
		clear(b) // the buffer the seed was read into
	}
	return km, err
}

// entropy is the random source of a process.
type entropy struct {
	r    *core.RNG
	fail bool
}

func (e *entropy) Read(b []byte) (int, error) {
	if e.fail {
		n := e.r.Intn(len(b))
		copy(b, e.r.Bytes(n))
		return n, errors.New("no entropy")
	}
	return copy(b, e.r.Bytes(len(b))), nil
}

func (Wallets) Run(c *core.Ctx) {
	// managers made from random values draw them from the simulator
	os.Setenv("GODEBUG", "cryptocustomrand=1")
	src := &entropy{r: c.Rng.Fork()}
	old := crand.Reader
	crand.Reader = src
	defer func() { crand.Reader = old }()

	var vs []*vault
	for n := c.Rng.Range(1, 3); n > 0; n-- {
		vs = append(vs, newVault(c.Rng))
	}
	seed := c.Plan.Seed
	type task struct {
		name     string
		ops      []uint64
		got, bad []string
	}
	var lives [][]*task
	var cur []*task
	for _, op := range c.Plan.Ops {
		switch op.K {
		case "schedule":
			seed = op.S
		case "crash":
			lives = append(lives, cur)
			cur = nil
		default:
			if len(cur) == 0 || cur[len(cur)-1].name != op.K {
				cur = append(cur, &task{name: op.K})
			}
			t := cur[len(cur)-1]
			t.ops = append(t.ops, op.S)
		}
	}
	lives = append(lives, cur)
	for n, ts := range lives {
		if n > 0 {
			c.Fault("crash")
		}
		r := c.Rng.Fork()
		l := &life{vs: vs}
		open := func() string {
			for i, v := range vs {
				var km *wallet.KeyManager
				var err error
				if v.kind == "random" && v.words == nil {
					km, err = wallet.NewKeyManagerFromRandom(v.text)
					if err == nil {
						if v.words = append([]string(nil), km.Mnemonic()...); len(v.words) != 24 {
							return fmt.Sprintf("a manager from random values has %d words", len(v.words))
						}
						v.seed = bip39seed(v.words)
					}
				} else {
					km, err = v.open(r)
				}
				if err != nil {
					return fmt.Sprintf("wallet %d (%s) does not open: %v", i, v.kind, err)
				}
				l.kms = append(l.kms, km)
				held := []uint32{walletIndex(r), uint32(r.Intn(4))}
				l.held = append(l.held, held)
				l.signers = append(l.signers, km.AddressSigner(held...))
			}
			if r.Pct(20) {
				c.Evals++
				return fresh(r, vs[0])
			}
			if r.Pct(20) && c.On("no-entropy") {
				c.Evals++
				c.Fault("no-entropy")
				src.fail = true
				defer func() { src.fail = false }()
				if _, err := wallet.NewKeyManagerFromRandom(vs[0].text); err == nil {
					return "a wallet is made without random values"
				}
			}
			return ""
		}
		bad := ""
		conc.Exec(c, seed+uint64(n), 0, 20_000_000, func(s *simrt.Sim) {
			if bad = guarded(open); bad != "" {
				return
			}
			var ids []int
			for _, t := range ts {
				ids = append(ids, simrt.GoNamed(t.name, func() {
					for _, s := range t.ops {
						what := ""
						b := guarded(func() string {
							var e string
							what, e = l.use(core.NewRNG(s))
							return e
						})
						t.got, t.bad = append(t.got, what), append(t.bad, b)
					}
				}))
			}
			for _, id := range ids {
				simrt.Join(id)
			}
		})
		c.Check(bad == "", "restore", "life %d: %s", n, bad)
		for _, t := range ts {
			for i := range t.ops {
				c.Evals++
				c.Steps++
				what, _, _ := strings.Cut(t.got[i], ":")
				c.Count("op." + what)
				c.State(t.got[i])
				c.Logf("life %d %s %s", n, t.name, t.got[i])
				if strings.HasPrefix(what, "damaged") {
					c.Fault(what)
				}
				c.Check(t.bad[i] == "", strings.ReplaceAll(what, " ", "-"), "life %d, %s: %s", n, what, t.bad[i])
			}
		}
	}
	if len(lives) > 0 && len(lives[0]) > 0 {
		c.Sample(fmt.Sprintf("%d wallets, %d lives, %s", len(vs), len(lives), lives[0][0].got))
	}
}

func guarded(f func() string) (bad string) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(core.Stop); ok || strings.HasPrefix(fmt.Sprintf("%T", p), "simrt.") {
				panic(p)
			}
			bad = fmt.Sprintf("panic at %s: %v", core.PanicSite(), p)
		}
	}()
	return f()
}

func pub(k ed25519.PrivateKey) []byte { return k[32:] }

// form is an address that a key controls.
func keyAddr(r *core.RNG, k ed25519.PrivateKey) (*model.Addr, string) {
	a := &model.Addr{Kind: model.AddrEd25519, ID: model.Blake(pub(k))}
	switch r.Intn(4) {
	case 1:
		a.Kind = model.AddrImplicit
		return a, "implicit"
	case 2:
		return &model.Addr{Kind: model.AddrRestricted, Inner: a, Caps: r.Bytes(r.Intn(2))}, "restricted"
	case 3:
		return &model.Addr{Kind: model.AddrRestricted, Inner: a, Caps: model.SetBits(r.Intn(9), r.Intn(9))}, "restricted"
	}
	return a, "plain"
}

// realOf builds an address without the code under test's decoders.
func realOf(a *model.Addr) iotago.Address {
	switch a.Kind {
	case model.AddrEd25519:
		x := iotago.Ed25519Address(a.ID)
		return &x
	case model.AddrImplicit:
		x := iotago.ImplicitAccountCreationAddress(a.ID)
		return &x
	}
	return &iotago.RestrictedAddress{Address: realOf(a.Inner), AllowedCapabilities: append([]byte(nil), a.Caps...)}
}

// signs judges a signature made for an address.
func signs(s iotago.AddressSigner, a *model.Addr, k ed25519.PrivateKey, r *core.RNG) string {
	msg := r.Bytes(r.Intn(100))
	addr := realOf(a)
	sig, err := s.Sign(addr, msg)
	if err != nil {
		return "no signature for an own address: " + err.Error()
	}
	e, ok := sig.(*iotago.Ed25519Signature)
	if !ok {
		return fmt.Sprintf("signature of type %T", sig)
	}
	if !bytes.Equal(e.PublicKey[:], pub(k)) || !bytes.Equal(e.Signature[:], ed25519.Sign(k, msg)) {
		return "the signature is not that of the address's key"
	}
	var d iotago.DirectUnlockableAddress
	switch x := addr.(type) {
	case *iotago.Ed25519Address:
		d = x
	case *iotago.ImplicitAccountCreationAddress:
		d = x
	case *iotago.RestrictedAddress:
		d = x.Address.(iotago.DirectUnlockableAddress)
	}
	if err := d.Unlock(msg, e); err != nil {
		return "the signature does not unlock the address: " + err.Error()
	}
	uid, err := s.SignerUIDForAddress(addr)
	if err != nil || uid != iotago.Identifier(model.Blake(pub(k))) {
		return fmt.Sprintf("the signer's identifier is %s (%v), not the hash of its public key", uid.ToHex(), err)
	}
	if es, err := s.EmptySignatureForAddress(addr); err != nil || es.Size() != e.Size() {
		return fmt.Sprintf("the empty signature differs in size (%v)", err)
	}
	return ""
}

func refuses(s iotago.AddressSigner, a *model.Addr) string {
	sig, err := s.Sign(realOf(a), []byte("x"))
	if err == nil {
		return fmt.Sprintf("signs for an address it has no key for: %v", sig)
	}
	if !errors.Is(err, iotago.ErrAddressKeysNotMapped) {
		return "refuses an address it has no key for with: " + err.Error()
	}
	if _, err := s.SignerUIDForAddress(realOf(a)); err == nil {
		return "has an identifier for an address it has no key for"
	}
	return ""
}

// fresh makes a wallet from random values and restores it.
func fresh(r *core.RNG, v *vault) string {
	km, err := wallet.NewKeyManagerFromRandom(v.text)
	if err != nil {
		return err.Error()
	}
	n, err := wallet.NewKeyManagerFromMnemonic(km.Mnemonic().String(), v.text)
	if err != nil {
		return "a wallet from random values is not restored by its mnemonic: " + err.Error()
	}
	x := walletIndex(r)
	a, _ := km.KeyPair(x)
	b, _ := n.KeyPair(x)
	if !bytes.Equal(a, b) || !bytes.Equal(a, slip10(bip39seed(km.Mnemonic()), v.at(x))) {
		return "a wallet from random values restored from its mnemonic has other keys"
	}
	o, err := wallet.NewKeyManagerFromRandom(v.text)
	if err != nil {
		return err.Error()
	}
	if b, _ := o.KeyPair(x); bytes.Equal(a, b) {
		return "two wallets from random values have the same keys"
	}
	return ""
}

// use is one action of a thread. It gives its kind and what is wrong.
func (l *life) use(r *core.RNG) (string, string) {
	i := r.Intn(len(l.vs))
	v, km := l.vs[i], l.kms[i]
	var index []uint32
	if r.Pct(80) {
		index = []uint32{walletIndex(r)}
	}
	k := v.key(index...)
	switch r.Weighted(5, 4, 3, 2, 6, 4, 4, 3, 4, 3, 1, 2) {
	case 0:
		what := "key pair:" + v.kind
		priv, pb := km.KeyPair(index...)
		if !bytes.Equal(priv, k) || !bytes.Equal(pb, pub(k)) {
			return what, fmt.Sprintf("the key pair at %s of a wallet from %s is not the reference's", pathText(v.at(index...)), v.kind)
		}
		clear(priv)
		clear(pb)
		return what, ""
	case 1:
		t := core.Pick(r, []iotago.AddressType{iotago.AddressEd25519, iotago.AddressImplicitAccountCreation})
		what := "address:" + v.kind + " " + t.String()
		want := append([]byte{byte(t)}, bytes.Clone(hashOf(pub(k)))...)
		a := km.Address(t, index...)
		if got := append([]byte{byte(a.Type())}, tail(a.ID(), 32)...); !bytes.Equal(got, want) {
			return what, fmt.Sprintf("the address at %s of a wallet from %s is %x instead of %x", pathText(v.at(index...)), v.kind, got, want)
		}
		return what, ""
	case 2:
		p := km.Path(index...)
		if p.String() != pathText(v.at(index...)) {
			return "path", fmt.Sprintf("the path is %s instead of %s", p, pathText(v.at(index...)))
		}
		for j := range p {
			p[j] ^= 1
		}
		return "path", ""
	case 3:
		if v.words == nil {
			return "mnemonic:none", ""
		}
		m := km.Mnemonic()
		if m.String() != strings.Join(v.words, " ") {
			return "mnemonic:" + v.kind, fmt.Sprintf("the mnemonic of a wallet from %s has %d words and is not that which restores it", v.kind, len(m))
		}
		clear(m)
		return "mnemonic:" + v.kind, ""
	case 4:
		s, held := l.signers[i], l.held[i]
		x := core.Pick(r, held)
		k := v.key(x)
		a, how := keyAddr(r, k)
		return "shared signer:" + how, signs(s, a, k, r)
	case 5:
		var have []uint32
		for n := r.Intn(4); n > 0; n-- {
			have = append(have, walletIndex(r))
		}
		s := km.AddressSigner(have...)
		if len(have) == 0 {
			k = v.key()
		} else {
			k = v.key(core.Pick(r, have))
		}
		a, how := keyAddr(r, k)
		return fmt.Sprint("signer:", len(have), how), signs(s, a, k, r)
	case 6:
		// an address of another index or wallet
		o := l.vs[r.Intn(len(l.vs))]
		k := o.key(walletIndex(r))
		for _, x := range l.held[i] {
			if bytes.Equal(v.key(x), k) {
				return "foreign:own", ""
			}
		}
		a, how := keyAddr(r, k)
		return "foreign:" + how, refuses(l.signers[i], a)
	case 7:
		return l.keys(r, k)
	case 8:
		return l.account(r, k)
	case 9:
		return l.damaged(r)
	case 10:
		// another wallet with the same secret, restored while this one is in use
		n, err := v.open(r)
		if err != nil {
			return "restore", err.Error()
		}
		a, _ := n.KeyPair(index...)
		if !bytes.Equal(a, k) {
			return "restore", "a wallet restored while it is in use has other keys"
		}
		return "restore", ""
	}
	// different indexes, different keys
	seen := map[string]uint32{}
	for n := r.Range(2, 5); n > 0; n-- {
		x := walletIndex(r)
		_, p := km.KeyPair(x)
		if y, ok := seen[string(p)]; ok && y != x {
			return "distinct", fmt.Sprintf("indexes %d and %d have the same key", x, y)
		}
		seen[string(p)] = x
	}
	return "distinct", ""
}

func hashOf(b []byte) []byte      { h := model.Blake(b); return h[:] }
func tail(b []byte, n int) []byte { return b[max(0, len(b)-n):] }
func hexOf(b []byte) string       { return "0x" + hex.EncodeToString(b) }

// keys signs with signers made from pairs of addresses and keys.
func (l *life) keys(r *core.RNG, k ed25519.PrivateKey) (string, string) {
	a, how := keyAddr(r, k)
	var ks iotago.AddressKeys
	switch x := realOf(a).(type) {
	case *iotago.Ed25519Address:
		ks = iotago.NewAddressKeysForEd25519Address(x, k)
	case *iotago.ImplicitAccountCreationAddress:
		ks = iotago.NewAddressKeysForImplicitAccountCreationAddress(x, k)
	case *iotago.RestrictedAddress:
		var err error
		if ks, err = iotago.NewAddressKeysForRestrictedEd25519Address(x, k); err != nil {
			return "pair:" + how, err.Error()
		}
	}
	// others with it
	all := []iotago.AddressKeys{ks}
	for n := r.Intn(3); n > 0; n-- {
		o := ed25519.NewKeyFromSeed(r.Bytes(32))
		x := iotago.Ed25519Address(model.Blake(pub(o)))
		all = append(all, iotago.NewAddressKeysForEd25519Address(&x, o))
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	s := iotago.NewInMemoryAddressSigner(all...)
	switch r.Intn(4) {
	case 0:
		o, _ := keyAddr(r, ed25519.NewKeyFromSeed(r.Bytes(32)))
		return "pair foreign:" + how, refuses(s, o)
	case 1:
		// keys of a wrong kind
		ks.Keys = core.Pick(r, []any{"key", []byte(k), nil, ed25519.PublicKey(pub(k))})
		s := iotago.NewInMemoryAddressSigner(ks)
		sig, err := s.Sign(realOf(a), nil)
		if err == nil {
			return "wrong key:" + how, fmt.Sprintf("signs with a %T: %v", ks.Keys, sig)
		}
		return "wrong key:" + how, ""
	}
	return "pair:" + how, signs(s, a, k, r)
}

// account checks an account and the one that is restored from its parameters.
func (l *life) account(r *core.RNG, k ed25519.PrivateKey) (string, string) {
	var id iotago.AccountID
	copy(id[:], r.Bytes(32))
	same := func(a wallet.Account) string {
		own := a.OwnerAddress()
		switch {
		case a.ID() != id:
			return fmt.Sprintf("the identifier is %s instead of %s", a.ID().ToHex(), id.ToHex())
		case a.Address() == nil || !bytes.Equal(a.Address()[:], id[:]):
			return "the address is not that of the account"
		case !bytes.Equal(a.PrivateKey(), k):
			return "the private key differs"
		case own.Type() != iotago.AddressEd25519 || !bytes.Equal(tail(own.ID(), 32), hashOf(pub(k))):
			return "the owner differs"
		}
		return ""
	}
	a := wallet.NewEd25519Account(id, append(ed25519.PrivateKey(nil), k...))
	if s := same(a); s != "" {
		return "account", s
	}
	ih, kh := hexOf(id[:]), hex.EncodeToString(k)
	if r.Bool() {
		b, err := wallet.AccountFromParams(ih, kh)
		if err != nil {
			return "account restored", err.Error()
		}
		if s := same(b); s != "" {
			return "account restored", s
		}
		return "account restored", ""
	}
	// damaged parameters: refused, or they say what they say
	i, p := []byte(ih), []byte(kh)
	x := &i
	if r.Bool() {
		x = &p
	}
	switch r.Intn(4) {
	case 0:
		*x = (*x)[:r.Intn(len(*x))]
	case 1:
		j := r.Intn(len(*x) + 1)
		*x = append((*x)[:j:j], append([]byte("0a"), (*x)[j:]...)...)
	case 2:
		(*x)[r.Intn(len(*x))] = byte(r.Intn(256))
	case 3:
		*x = append(*x, r.Bytes(r.Range(1, 3))...)
	}
	what := "damaged account"
	b, err := wallet.AccountFromParams(string(i), string(p))
	if err != nil {
		return what, ""
	}
	if got := hex.EncodeToString(b.PrivateKey()); got != strings.ToLower(string(p)) {
		return what, fmt.Sprintf("the private key %q is taken for %s", p, got)
	}
	if bid := b.ID(); x == &p && bid != id {
		return what, "the identifier differs"
	}
	return what, ""
}

// damaged restores a wallet from a sentence that was damaged.
func (l *life) damaged(r *core.RNG) (string, string) {
	entropy := entropyBytes(r, 32)
	words, _ := bip39.EntropyToMnemonic(entropy)
	w := append([]string(nil), words...)
	other, _ := bip39.EntropyToMnemonic(r.Bytes(32))
	how := ""
	switch r.Intn(6) {
	case 0:
		how = "word"
		w[r.Intn(24)] = other[r.Intn(24)]
	case 1:
		how = "swapped"
		i, j := r.Intn(24), r.Intn(24)
		w[i], w[j] = w[j], w[i]
	case 2:
		how = "lost"
		i := r.Intn(24)
		w = append(w[:i], w[i+1:]...)
	case 3:
		how = "short"
		short, _ := bip39.EntropyToMnemonic(r.Bytes(4 * r.Range(4, 7)))
		w = short
	case 4:
		how = "long"
		long, _ := bip39.EntropyToMnemonic(r.Bytes(4 * r.Range(9, 16)))
		w = long
	case 5:
		how = "garbled"
		i := r.Intn(24)
		w[i] = w[i] + string(rune('a'+r.Intn(26)))
	}
	path := pathText([]uint32{44, 4218, 0, 0, 0})
	km, err := wallet.NewKeyManagerFromMnemonic(strings.Join(w, " "), path)
	_, serr := bip39.MnemonicToEntropy(w)
	valid := serr == nil && len(w) == 24
	what := "damaged mnemonic:" + how
	if (err == nil) != valid {
		return what, fmt.Sprintf("a sentence that is valid: %t gives %v", valid, err)
	}
	if err == nil {
		k, _ := km.KeyPair()
		if !bytes.Equal(k, slip10(bip39seed(w), []uint32{44 | 1<<31, 4218 | 1<<31, 1 << 31, 1 << 31, 1 << 31})) {
			return what, "a wallet restored from a sentence has other keys than it says"
		}
	}
	return what, ""
}

// KnownWallet reproduces the known findings about W02.
func KnownWallet(c *core.Ctx) {
	seed := make([]byte, 32)
	path := wallet.DefaultIOTAPath
	c.Evals++
	bad := guarded(func() string {
		a, err := wallet.NewKeyManager(seed, path)
		if err != nil {
			return err.Error()
		}
		m := a.Mnemonic()
		b, err := wallet.NewKeyManagerFromMnemonic(m.String(), path)
		if err != nil {
			return "it is refused: " + err.Error()
		}
		x, _ := a.KeyPair()
		if y, _ := b.KeyPair(); !bytes.Equal(x, y) {
			return "it restores a wallet with other keys"
		}
		return ""
	})
	if bad != "" {
		c.Finding("seed-mnemonic", "mnemonic", "the mnemonic of a key manager made from a seed of 32 bytes does not restore it: %s", bad)
	}
	entropy := make([]byte, 32)
	entropy[1] = 1
	words, _ := bip39.EntropyToMnemonic(entropy)
	c.Evals++
	if km, err := wallet.NewKeyManagerFromMnemonic(words.String(), path); err != nil {
		c.Finding("leading-zero-mnemonic", "mnemonic", "the mnemonic %q is refused: %v", words, err)
	} else if k, _ := km.KeyPair(); !bytes.Equal(k, slip10(bip39seed(words), []uint32{44 | 1<<31, 4218 | 1<<31, 1 << 31, 1 << 31, 1 << 31})) {
		c.Fail("mnemonic", "the mnemonic %q gives other keys", words)
	}
}
