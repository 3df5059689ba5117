package conc

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/bits"

	"golang.org/x/crypto/blake2b"

	"github.com/iotaledger/iota.go/v4/blockissuer/pow"

	"verif.local/sim/core"
	"verif.local/sim/simrt"
)

// Pow is the world of parallel proof of work.
type Pow struct{}

func (Pow) Plan(r *core.RNG, prop, tier string) []core.Op {
	n := r.Range(1, 3)
	ops := []core.Op{{K: "schedule", S: r.U64()}}
	for i := 0; i < n; i++ {
		ops = append(ops, core.Op{K: core.Pick(r, []string{"mine", "mine", "cancel", "cancel", "cancel", "hopeless", "impossible", "late", "early"}), S: r.U64()})
	}
	return ops
}

// zeros is the reference for pow.TrailingZeros.
func zeros(digest [32]byte, nonce uint64) int {
	h := blake2b.Sum256(binary.LittleEndian.AppendUint64(append([]byte(nil), digest[:]...), nonce))
	return bits.TrailingZeros64(binary.LittleEndian.Uint64(h[24:]))
}

type mineJob struct {
	kind    string
	data    []byte
	target  int
	workers int
	delay   int
	after   int
	shared  bool

	nonce    uint64
	err      error
	canceled bool // the context was done before the call returned
	retAt    int64
	cancelAt int64
}

func (Pow) Run(c *core.Ctx) {
	seed := c.Plan.Seed
	var jobs []*mineJob
	for _, op := range c.Plan.Ops {
		if op.K == "schedule" {
			seed = op.S
			continue
		}
		r := core.NewRNG(op.S)
		j := &mineJob{kind: op.K, data: r.Bytes(r.Intn(80)), workers: r.Range(1, 4), shared: r.Bool()}
		if r.Pct(10) {
			j.workers = r.Range(5, 8)
		}
		j.target = r.Weighted(1, 1, 2, 2, 3, 3, 3, 2, 1) - 1
		j.delay = r.Intn(core.Pick(r, []int{3, 30, 300}))
		switch op.K {
		case "hopeless", "cancel":
			if op.K == "hopeless" || r.Bool() {
				j.target = core.Pick(r, []int{64, 64, 50, 63})
			}
		case "impossible":
			j.target = core.Pick(r, []int{65, 66, 100, 1 << 20})
		}
		jobs = append(jobs, j)
	}
	shared := pow.New(c.Rng.Range(1, 4))
	left := 0
	Exec(c, seed, 0, 3_000_000, func(s *simrt.Sim) {
		var ids []int
		for i, j := range jobs {
			ids = append(ids, simrt.GoNamed(fmt.Sprint("caller", i), func() {
				ctx, cancel := context.WithCancel(context.Background())
				w := shared
				if !j.shared {
					w = pow.New(j.workers)
				}
				stop := func() {
					j.cancelAt = simrt.Stamp()
					cancel()
					simrt.Fair()
					simrt.Yield()
				}
				switch j.kind {
				case "early":
					stop()
				case "cancel", "hopeless":
					simrt.GoNamed(fmt.Sprint("canceller", i), func() {
						for k := 0; k < j.delay; k++ {
							simrt.Y("wait")
						}
						stop()
					})
				}
				j.nonce, j.err = w.Mine(ctx, j.data, j.target)
				j.retAt = simrt.Stamp()
				j.canceled = ctx.Err() != nil
				if j.kind == "late" {
					stop()
				}
			}))
		}
		for _, id := range ids {
			simrt.Join(id)
		}
		simrt.Fair()
		// what is left may only notice that it is over
		for k := 0; k < 60 && simrt.Alive() > 0; k++ {
			simrt.Yield()
		}
		at := simrt.Stamp()
		left = simrt.Quiesce()
		if d := simrt.Stamp() - at; d > int64(600+300*len(jobs)) {
			c.Fail("still-working", "workers do %d more steps after the calls have returned", d)
		}
	})
	c.Check(left == 0, "leak", "%d tasks stay blocked for ever", left)
	for _, j := range jobs {
		c.Evals++
		c.Logf("%s target %d workers %d -> %d %v (canceled %v)", j.kind, j.target, j.workers, j.nonce, j.err, j.canceled)
		c.Count("kind." + j.kind)
		if j.cancelAt != 0 {
			c.Fault("cancellation")
		}
		out := "nonce"
		switch {
		case j.err == nil:
			d := blake2b.Sum256(j.data)
			z := zeros(d, j.nonce)
			c.Check(j.target <= 64 && z >= j.target, "invalid-nonce", "nonce %d for target %d has %d trailing zeros", j.nonce, j.target, z)
			c.Check(pow.TrailingZeros(d[:], j.nonce) == z, "zeros", "TrailingZeros gives %d instead of %d", pow.TrailingZeros(d[:], j.nonce), z)
		case j.target > 64:
			out = "impossible"
			c.Check(errors.Is(j.err, pow.ErrInvalidTargetTrailingZeroes) || j.canceled, "wrong-error", "target %d gives %v", j.target, j.err)
		default:
			out = "canceled"
			c.Check(errors.Is(j.err, pow.ErrCanceled), "wrong-error", "target %d gives %v", j.target, j.err)
			c.Check(j.canceled, "spurious-cancel", "cancellation error for target %d without a cancellation", j.target)
		}
		if j.canceled && j.cancelAt != 0 && j.cancelAt < j.retAt && j.target > 40 {
			// every other task shares the steps
			c.Check(j.retAt-j.cancelAt < int64(4000*(1+len(jobs))), "slow-cancel", "Mine returned %d steps after the cancellation", j.retAt-j.cancelAt)
			c.Add("cancel-latency-steps", j.retAt-j.cancelAt)
			c.Count("cancel-latency-n")
		}
		c.State(j.kind, out, fmt.Sprint(j.target > 40, j.workers, j.shared))
	}
	if len(c.Samples) == 0 && len(jobs) > 0 {
		c.Sample(fmt.Sprintf("%s target %d workers %d -> %d %v", jobs[0].kind, jobs[0].target, jobs[0].workers, jobs[0].nonce, jobs[0].err))
	}
}
