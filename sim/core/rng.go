// Package core is the deterministic simulation kernel: the only source of randomness, the simulated clock and event
// queue, plans (workload and fault sequences), the parallel seed runner, minimisation, replay and evidence.
package core

// RNG is a splitmix64 generator. Every choice of a run comes from one of these.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{s: seed} }

// Mix derives a seed from others.
func Mix(xs ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, x := range xs {
		h ^= x + 0x9E3779B97F4A7C15 + h<<6 + h>>2
		h = (&RNG{s: h}).U64()
	}
	return h
}

// HashStr is FNV-1a.
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *RNG) U32() uint32 { return uint32(r.U64() >> 32) }

// Intn gives a number in [0,n); 0 if n is not positive.
func (r *RNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *RNG) U64n(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return r.U64() % n
}

// Range gives a number in [lo,hi].
func (r *RNG) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// Pct is true with the given percentage.
func (r *RNG) Pct(p int) bool { return r.Intn(100) < p }
func (r *RNG) Bool() bool     { return r.U64()&1 == 1 }
func (r *RNG) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		x := r.U64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(x)
			x >>= 8
		}
	}
	return b
}
func (r *RNG) Hash() (h [32]byte) { copy(h[:], r.Bytes(32)); return }
func (r *RNG) Fork() *RNG         { return NewRNG(r.U64()) }

// Weighted picks an index with probability proportional to its weight.
func (r *RNG) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	n := r.Intn(t)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return 0
}

func (r *RNG) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

func Pick[T any](r *RNG, xs []T) T { return xs[r.Intn(len(xs))] }

// Near gives a value at or near x: the boundaries matter most.
func (r *RNG) Near(x uint64) uint64 {
	switch r.Intn(6) {
	case 0, 1, 2:
		return x
	case 3:
		return x + 1
	case 4:
		if x > 0 {
			return x - 1
		}
		return x
	}
	d := uint64(r.Intn(5))
	if r.Bool() || x < d {
		return x + d
	}
	return x - d
}
func (r *RNG) Near32(x uint32) uint32 { return uint32(r.Near(uint64(x))) }

// Perm is a permutation of 0..n-1.
func (r *RNG) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
