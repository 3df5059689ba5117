package ledger

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"time"

	"github.com/iotaledger/hive.go/runtime/options"
	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

// Genesis is the world of networks that are founded with options, run for years and are joined by nodes that read the
// parameters from the genesis snapshot.
type Genesis struct{}

func (Genesis) Plan(r *core.RNG, prop, tier string) []core.Op {
	ops := []core.Op{{K: "found", S: r.U64()}}
	for i := r.Range(6, 16); i > 0; i-- {
		ops = append(ops, core.Op{K: core.Pick(r, []string{"found", "founders", "join", "crash", "twin", "twin", "twin", "hoard", "hoard", "rewards", "rewards"}), S: r.U64()})
	}
	return ops
}

const year = 365 * 24 * 60 * 60

// defaults are the options of a network for which none are given.
func defaults() *model.Params {
	return &model.Params{Version: 3, NetworkName: "testnet", HRP: "rms",
		StorageCost: 100, FactorData: 1, OffOutput: 10, OffIssuerKey: 100, OffStaking: 100, OffDelegation: 100,
		WDataByte: 500, WBlock: 110_000, WInput: 7_500, WContextInput: 40_000, WOutput: 90_000, WNativeToken: 50_000, WStaking: 40_000, WBlockIssuer: 70_000, WAllotment: 5_000, WSignature: 15_000,
		SlotDuration: 10, SPE: 13,
		LivenessLow: 15, LivenessHigh: 30, MinCA: 10, MaxCA: 20, EpochNearing: 60,
		Supply: 1813620509061365, ManaBits: 63, GenRate: 1, GenRateExp: 17, DecayExp: 32, EpochsSumExp: 21, AnnualDecay: 70,
		MinRMC: 1, RMCInc: 1, RMCDec: 1, IncThr: 400_000_000, DecThr: 250_000_000, SchedulerRate: 50_000_000, MaxBuf: 1000, MaxValBuf: 100,
		Unbonding: 10, ValBlocks: 10, Punishment: 10, VSWindow: 7, VSTarget: 5, VSOffset: 7,
		ProfitMargin: 8, PoolCoeff: 11, RewardGenRatio: 2, Retention: 384, CommitteeSize: 32, ChainSwitching: 3}
}

type option = options.Option[iotago.V3ProtocolParameters]

// choice is a group of options a founder gives together.
type choice struct {
	draw func(r *core.RNG, p *model.Params)
	opt  func(p *model.Params) option
}

var choices = []choice{
	{func(r *core.RNG, p *model.Params) { p.Version = byte(r.Range(3, 5)) },
		func(p *model.Params) option { return iotago.WithVersion(iotago.Version(p.Version)) }},
	{func(r *core.RNG, p *model.Params) {
		p.NetworkName, p.HRP = core.Pick(r, []string{"sim", "x", "iota-mainnet"}), core.Pick(r, []string{"iota", "tst", "smr"})
	},
		func(p *model.Params) option {
			return iotago.WithNetworkOptions(p.NetworkName, iotago.NetworkPrefix(p.HRP))
		}},
	{func(r *core.RNG, p *model.Params) {
		p.StorageCost, p.FactorData = r.U64n(1000), byte(r.Range(1, 9))
		p.OffOutput, p.OffIssuerKey, p.OffStaking, p.OffDelegation = r.U64n(1000), r.U64n(1000), r.U64n(1000), r.U64n(1000)
	},
		func(p *model.Params) option {
			return iotago.WithStorageOptions(iotago.BaseToken(p.StorageCost), iotago.StorageScoreFactor(p.FactorData), iotago.StorageScore(p.OffOutput), iotago.StorageScore(p.OffIssuerKey), iotago.StorageScore(p.OffStaking), iotago.StorageScore(p.OffDelegation))
		}},
	{func(r *core.RNG, p *model.Params) {
		for _, f := range []*uint32{&p.WDataByte, &p.WBlock, &p.WInput, &p.WContextInput, &p.WOutput, &p.WNativeToken, &p.WStaking, &p.WBlockIssuer, &p.WAllotment, &p.WSignature} {
			*f = r.U32() >> 12
		}
		p.WDataByte >>= 6
		if r.Pct(5) {
			p.WSignature <<= 5
		}
	},
		func(p *model.Params) option {
			w := func(x uint32) iotago.WorkScore { return iotago.WorkScore(x) }
			return iotago.WithWorkScoreOptions(w(p.WDataByte), w(p.WBlock), w(p.WInput), w(p.WContextInput), w(p.WOutput), w(p.WNativeToken), w(p.WStaking), w(p.WBlockIssuer), w(p.WAllotment), w(p.WSignature))
		}},
	{func(r *core.RNG, p *model.Params) {
		spe, bits := uint32(1)<<p.SPE, 0
		p.MinCA = uint32(r.Range(1, 20))
		p.MaxCA = p.MinCA + uint32(r.Range(1, 20))
		p.EpochNearing = p.MaxCA + uint32(r.Range(1, 40))
		p.LivenessHigh = uint16(r.Intn(int(min(p.MinCA*uint32(p.SlotDuration), 65535))))
		p.LivenessLow = uint16(r.Intn(int(p.LivenessHigh) + 1))
		if r.Pct(40) {
			bits = 1 << r.Intn(5)
		}
		switch {
		case bits&1 != 0:
			p.LivenessLow = p.LivenessHigh + uint16(r.Intn(2))
		case bits&2 != 0:
			p.LivenessHigh = uint16(min(p.MinCA*uint32(p.SlotDuration)-1+uint32(r.Intn(3)), 65535))
		case bits&4 != 0:
			p.MaxCA = p.MinCA + uint32(r.Intn(3)) - 1
		case bits&8 != 0:
			p.EpochNearing = p.MaxCA + uint32(r.Intn(3)) - 1
		case bits&16 != 0:
			p.EpochNearing = spe - 1 + uint32(r.Intn(3))
		}
	},
		func(p *model.Params) option {
			return iotago.WithLivenessOptions(p.LivenessLow, p.LivenessHigh, iotago.SlotIndex(p.MinCA), iotago.SlotIndex(p.MaxCA), iotago.SlotIndex(p.EpochNearing))
		}},
	{func(r *core.RNG, p *model.Params) {
		p.Supply = core.Pick(r, []uint64{1813620509061365, 1_000_000_000, 1 + r.U64n(1<<50), 1 << r.Intn(54)})
		p.ManaBits = core.Pick(r, []byte{63, 63, 62, 60, 40})
		p.GenRate = byte(core.Pick(r, []int{1, 1, 2, 3, 17, 255}))
		p.GenRateExp = byte(core.Pick(r, []int{17, 17, 13, 20, 25, 10}))
		p.DecayExp = byte(core.Pick(r, []int{32, 32, 31, 24, 16, 33}))
		p.EpochsSumExp = byte(core.Pick(r, []int{21, 21, 20, 22, 16, 10, 31}))
		p.AnnualDecay = byte(core.Pick(r, []int{70, 70, 50, 99, 1, 90, 100, 101}))
	},
		func(p *model.Params) option {
			return iotago.WithSupplyOptions(iotago.BaseToken(p.Supply), p.ManaBits, p.GenRate, p.GenRateExp, p.DecayExp, p.EpochsSumExp, p.AnnualDecay)
		}},
	{func(r *core.RNG, p *model.Params) {
		p.MinRMC, p.RMCInc, p.RMCDec = r.U64n(1000), r.U64n(1000), r.U64n(1000)
		p.SchedulerRate = r.U32() >> core.Pick(r, []int{6, 8, 12})
		all := uint64(p.SchedulerRate) * uint64(p.SlotDuration)
		p.IncThr = uint32(min(r.U64n(all+1), math.MaxUint32))
		p.DecThr = uint32(r.U64n(uint64(p.IncThr) + 1))
		switch r.Intn(8) {
		case 0:
			p.IncThr = uint32(min(all+uint64(r.Intn(2)), math.MaxUint32))
		case 1:
			p.DecThr = uint32(min(all+uint64(r.Intn(2)), math.MaxUint32))
		case 2:
			p.DecThr = uint32(min(uint64(p.IncThr)+uint64(r.Intn(2)), math.MaxUint32))
		}
		p.MaxBuf, p.MaxValBuf = r.U32()>>16, r.U32()>>16
	},
		func(p *model.Params) option {
			return iotago.WithCongestionControlOptions(iotago.Mana(p.MinRMC), iotago.Mana(p.RMCInc), iotago.Mana(p.RMCDec), iotago.WorkScore(p.IncThr), iotago.WorkScore(p.DecThr), iotago.WorkScore(p.SchedulerRate), p.MaxBuf, p.MaxValBuf)
		}},
	{func(r *core.RNG, p *model.Params) {
		p.Unbonding, p.ValBlocks, p.Punishment = uint32(r.Range(1, 99)), byte(r.Range(28, 34)), uint32(r.Range(1, 99))
		if r.Pct(60) {
			p.ValBlocks = byte(r.Range(1, 32))
		}
	},
		func(p *model.Params) option {
			return iotago.WithStakingOptions(iotago.EpochIndex(p.Unbonding), p.ValBlocks, iotago.EpochIndex(p.Punishment))
		}},
	{func(r *core.RNG, p *model.Params) {
		p.VSWindow, p.VSTarget, p.VSOffset = byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))
	},
		func(p *model.Params) option {
			return iotago.WithVersionSignalingOptions(p.VSWindow, p.VSTarget, p.VSOffset)
		}},
	{func(r *core.RNG, p *model.Params) {
		p.ProfitMargin, p.RewardGenRatio, p.Retention = byte(r.Intn(64)), byte(r.Range(1, 8)), uint16(r.Range(0, 65535))
		p.PoolCoeff = byte(r.Range(1, 64-bits.Len64(p.Supply)))
		if r.Pct(15) {
			p.PoolCoeff = byte(64 - bits.Len64(p.Supply) + r.Intn(3))
		} else if r.Pct(5) {
			p.PoolCoeff = byte(r.Intn(256))
		}
	},
		func(p *model.Params) option {
			return iotago.WithRewardsOptions(p.ProfitMargin, p.PoolCoeff, p.RewardGenRatio, p.Retention)
		}},
	{func(r *core.RNG, p *model.Params) { p.CommitteeSize = byte(r.Intn(256)) },
		func(p *model.Params) option { return iotago.WithTargetCommitteeSize(p.CommitteeSize) }},
	{func(r *core.RNG, p *model.Params) { p.ChainSwitching = byte(r.Intn(256)) },
		func(p *model.Params) option { return iotago.WithChainSwitchingThreshold(p.ChainSwitching) }},
}

func timeOpt(p *model.Params) option {
	return iotago.WithTimeProviderOptions(iotago.SlotIndex(p.GenesisSlot), p.GenesisUnix, p.SlotDuration, p.SPE)
}

// founder chooses options for a network.
func founder(r *core.RNG) (*model.Params, []option) {
	p := defaults()
	p.GenesisSlot, p.GenesisUnix = core.Pick(r, []uint32{0, 0, 1, 100, 65898}), core.Pick(r, []int64{1600000000, 1700000000, 0, 1690879505})
	if r.Pct(60) {
		p.SlotDuration, p.SPE = byte(core.Pick(r, []int{1, 5, 10, 10, 20, 60, 85, 86, 200, 255})), byte(r.Range(6, 17))
		for int(p.SlotDuration)<<p.SPE > year/2 { // epochs are shorter than years
			p.SPE--
		}
	}
	opts := []option{timeOpt(p)}
	n := core.Pick(r, []int{0, 1, 2, 4, len(choices)})
	take := r.Perm(len(choices))[:n]
	for i := range choices { // drawn in one order, since the draws depend on each other
		for _, j := range take {
			if i == j {
				choices[i].draw(r, p)
			}
		}
	}
	for _, j := range take {
		opts = append(opts, choices[j].opt(p))
	}
	return p, opts
}

// verdict says whether the options make a network, and false if that hangs on the last digit of a floating point number.
func verdict(p *model.Params) (why string, sure bool) {
	all := uint64(p.SchedulerRate) * uint64(p.SlotDuration)
	switch {
	case p.LivenessLow > p.LivenessHigh:
		return "liveness bounds", true
	case uint64(p.LivenessHigh) >= uint64(p.MinCA)*uint64(p.SlotDuration):
		return "liveness above committable age", true
	case p.MinCA >= p.MaxCA:
		return "committable ages", true
	case p.MaxCA >= p.EpochNearing:
		return "epoch nearing threshold", true
	case uint64(1)<<p.SPE <= uint64(p.EpochNearing):
		return "epoch too short", true
	case uint64(p.IncThr) > all:
		return "increase threshold", true
	case uint64(p.DecThr) > all:
		return "decrease threshold", true
	case p.DecThr > p.IncThr:
		return "thresholds", true
	case p.ValBlocks > 32:
		return "validation blocks", true
	case bits.Len64(p.Supply)+int(p.PoolCoeff) > 64:
		return "pool coefficient", true
	case p.DecayExp > 32:
		return "decay exponent", true
	case p.AnnualDecay >= 100:
		return "no decay", true
	case p.GenRateExp < p.SPE:
		return "generation exponent", true
	}
	fin := new(big.Int).SetUint64(p.Supply)
	fin.Mul(fin, big.NewInt(int64(p.RewardGenRatio)*int64(p.GenRate)))
	if fin.BitLen() > 64 {
		return "target reward", true
	}
	delta, beta := float64(p.SlotDuration)*math.Ldexp(1, int(p.SPE))/year, -math.Log(float64(p.AnnualDecay)/100)
	sure = true
	over := func(x, limit float64) bool {
		if math.Abs(x/limit-1) < 1e-8 {
			sure = false
		}
		return x >= limit
	}
	a := math.Exp(-beta * delta)
	sum := a / -math.Expm1(-beta*delta) * math.Ldexp(1, int(p.EpochsSumExp))
	mana := 21 * float64(p.Supply) * float64(p.GenRate) * math.Ldexp(1, int(p.SPE)-int(p.GenRateExp)) / (beta * delta)
	switch {
	case over(mana, math.Ldexp(1, int(p.ManaBits))):
		why = "mana supply"
	case over(sum*float64(p.GenRate), 1<<32):
		why = "epochs sum"
	case 1/delta >= 1 && over(math.Ldexp(a, int(p.DecayExp)), 1<<32):
		why = "decay factors"
	}
	// The last digits of the sum decide whether its product with the rate fits.
	if math.Abs(sum*float64(p.GenRate)-1<<32) < 300 {
		sure = false
	}
	return why, sure
}

// found is what the code makes of options.
func found(opts []option) (pp *iotago.V3ProtocolParameters, refused string) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(core.Stop); ok {
				panic(x)
			}
			pp, refused = nil, fmt.Sprint(x)
		}
	}()
	return iotago.NewV3SnapshotProtocolParameters(opts...), ""
}

type genesis struct {
	c    *core.Ctx
	p    *model.Params // of the network that runs, nil if none does
	pp   iotago.ProtocolParameters
	api  iotago.API
	disk []byte
}

func (Genesis) Run(c *core.Ctx) {
	w := &genesis{c: c}
	for _, op := range c.Plan.Ops {
		c.Steps++
		r := core.NewRNG(op.S)
		if w.p == nil && op.K != "founders" {
			op.K = "found"
		}
		c.Count("op." + op.K)
		switch op.K {
		case "found":
			w.found(r)
		case "founders":
			// Two founders with the same options, given in another order, found the same network.
			p, opts := founder(r)
			a, x := found(opts)
			shuffled := append([]option(nil), opts...)
			r.Shuffle(len(shuffled), func(i, j int) { shuffled[i], shuffled[j] = shuffled[j], shuffled[i] })
			b, y := found(shuffled)
			c.Check((x == "") == (y == ""), "founders", "the same options found a network (%q) or not (%q) depending on their order: %+v", x, y, p)
			if a != nil && b != nil {
				w.same(a, b, "the order of options")
			}
		case "join":
			q, n, err := iotago.ProtocolParametersFromBytes(w.disk)
			c.Check(err == nil && n == len(w.disk), "snapshot", "the parameters of the snapshot do not decode: %v", err)
			w.same(w.pp.(*iotago.V3ProtocolParameters), q, "the snapshot")
			w.pp, w.api = q, iotago.V3API(q)
		case "crash":
			// Some of the snapshot was written when the node crashed, or a bit of it rotted.
			c.Fault("torn-snapshot")
			b := bytes.Clone(w.disk)
			if r.Bool() {
				b = b[:r.Intn(len(b))]
			} else {
				b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			}
			q, n, err := iotago.ProtocolParametersFromBytes(b)
			if err == nil && n == len(b) {
				got, err := q.Bytes()
				c.Check(err == nil && bytes.Equal(got, b), "torn", "damaged parameters decode to others: %x", b)
				c.Check(q.Equals(w.pp) == bytes.Equal(b, w.disk) && w.pp.Equals(q) == bytes.Equal(b, w.disk), "equal", "damaged parameters count as equal: %x", b)
			}
		case "twin":
			w.twin(r)
		case "hoard":
			w.hoard(r)
		case "rewards":
			w.rewards(r)
		}
		c.Evals++
	}
}

func (w *genesis) same(a, b iotago.ProtocolParameters, why string) {
	x, err1 := a.Bytes()
	y, err2 := b.Bytes()
	h, err3 := a.Hash()
	k, err4 := b.Hash()
	w.c.Check(err1 == nil && err2 == nil && err3 == nil && err4 == nil, "bytes", "no bytes or hash of parameters: %v %v %v %v", err1, err2, err3, err4)
	w.c.Check(bytes.Equal(x, y) && h == k && a.Equals(b) && b.Equals(a), "differ", "parameters differ by %s:\n%x\n%x", why, x, y)
}

// found founds a network and looks at all of its parameters.
func (w *genesis) found(r *core.RNG) {
	c := w.c
	p, opts := founder(r)
	pp, refused := found(opts)
	why, sure := verdict(p)
	c.Logf("network: refused %v, reason %q", refused != "", why)
	if pp == nil {
		c.Fault("refused-options")
		c.Check(why != "" || !sure, "refused", "options that make a sound network are refused: %s\n%+v", refused, p)
		c.State("refused", why)
		return
	}
	if sure {
		c.Check(why == "", "unsound", "options make a network although they violate the rule about %s\n%+v", why, p)
	}
	if why != "" {
		return
	}
	c.State(fmt.Sprint(p.SPE, p.SlotDuration, len(opts), p.AnnualDecay, p.ManaBits, p.GenRateExp))
	api := apiOf(pp)
	c.Check((api == nil) == (maxWork(p) == 0), "max-work", "an interface for the network is made: %v, but the most work of a block is %d\n%+v", api != nil, maxWork(p), p)
	if api == nil {
		c.Fault("refused-work")
		return
	}
	w.p, w.pp, w.api = p, pp, api
	w.derived(pp)
	b, err := pp.Bytes()
	c.Check(err == nil && bytes.Equal(b, p.Bytes()), "options", "the parameters are not what the options say: %v\n%x\n%x", err, b, p.Bytes())
	w.disk = bytes.Clone(b)
	h, err := pp.Hash()
	c.Check(err == nil && h == iotago.Identifier(model.Blake(b)), "hash", "wrong hash of the parameters")
	id := model.Blake([]byte(p.NetworkName))
	c.Check(uint64(pp.NetworkID()) == leU64(id[:8]), "network", "network ID %d", pp.NetworkID())
	c.Check(pp.Version() == iotago.Version(p.Version) && pp.NetworkName() == p.NetworkName && string(pp.Bech32HRP()) == p.HRP && uint64(pp.TokenSupply()) == p.Supply &&
		uint32(pp.GenesisSlot()) == p.GenesisSlot && pp.GenesisUnixTimestamp() == p.GenesisUnix && pp.SlotDurationInSeconds() == p.SlotDuration && pp.SlotsPerEpochExponent() == p.SPE &&
		pp.ParamEpochDurationInSlots() == 1<<p.SPE && uint32(pp.StakingUnbondingPeriod()) == p.Unbonding && pp.ValidationBlocksPerSlot() == p.ValBlocks && uint32(pp.PunishmentEpochs()) == p.Punishment &&
		pp.LivenessThresholdLowerBound() == time.Duration(p.LivenessLow)*time.Second && pp.LivenessThresholdUpperBound() == time.Duration(p.LivenessHigh)*time.Second &&
		uint32(pp.MinCommittableAge()) == p.MinCA && uint32(pp.MaxCommittableAge()) == p.MaxCA && uint32(pp.EpochNearingThreshold()) == p.EpochNearing &&
		pp.TargetCommitteeSize() == p.CommitteeSize && pp.ChainSwitchingThreshold() == p.ChainSwitching, "accessors", "the parameters are read as %s instead of %+v", pp, p)
	c.Check(pp.GenesisBlockID().Slot() == pp.GenesisSlot() && pp.GenesisBlockID().Identifier() == iotago.EmptyIdentifier, "genesis-block", "genesis block ID %s", pp.GenesisBlockID())
	tp := w.api.TimeProvider()
	c.Check(uint32(tp.GenesisSlot()) == p.GenesisSlot && tp.GenesisUnixTime() == p.GenesisUnix && tp.SlotDurationSeconds() == int64(p.SlotDuration) && tp.EpochDurationSlots() == 1<<p.SPE, "clock", "the clock of the network differs from its parameters")
	c.Check(w.api.MaxBlockWork() == maxWork(p), "max-work", "the most work of a block is %d instead of %d", w.api.MaxBlockWork(), maxWork(p))
}

func leU64(b []byte) (x uint64) {
	for i := 7; i >= 0; i-- {
		x = x<<8 | uint64(b[i])
	}
	return
}

// derived compares the derived parameters with their definitions and takes the values, which are rounded.
func (w *genesis) derived(pp *iotago.V3ProtocolParameters) {
	c, p := w.c, w.p
	delta, beta := float64(p.SlotDuration)*math.Ldexp(1, int(p.SPE))/year, -math.Log(float64(p.AnnualDecay)/100)
	about := func(what string, got uint64, want float64) {
		c.Check(math.Abs(float64(got)-want) <= 1+math.Abs(want)*1e-8, "derived", "%s is %d instead of %.3f\n%+v", what, got, want, p)
	}
	fs := pp.ManaParameters().DecayFactors
	n := min(65535, year/(int(p.SlotDuration)<<p.SPE))
	c.Check(len(fs) == n, "derived", "%d decay factors instead of %d\n%+v", len(fs), n, p)
	for i, f := range fs {
		if n < 2000 || i%17 == 0 || i == n-1 {
			about(fmt.Sprintf("decay factor %d", i), uint64(f), math.Ldexp(math.Exp(-beta*delta*float64(i+1)), int(p.DecayExp)))
		}
		c.Check(i == 0 || f <= fs[i-1], "derived", "decay factor %d is larger than the one before", i)
	}
	p.DecayFactors = append([]uint32(nil), fs...)
	p.EpochsSum = uint32(pp.ManaParameters().DecayFactorEpochsSum)
	about("the sum of decays", uint64(p.EpochsSum), math.Exp(-beta*delta)/-math.Expm1(-beta*delta)*math.Ldexp(1, int(p.EpochsSumExp)))
	rp := pp.RewardsParameters()
	p.Bootstrapping = uint32(rp.BootstrappingDuration)
	about("the bootstrapping duration", uint64(p.Bootstrapping), 1/(delta*beta))
	fin := new(big.Int).SetUint64(p.Supply)
	fin.Mul(fin, big.NewInt(int64(p.RewardGenRatio)*int64(p.GenRate)))
	fin.Rsh(fin, uint(p.GenRateExp-p.SPE))
	p.FinalReward, p.InitialReward = uint64(rp.FinalTargetRewardsRate), uint64(rp.InitialTargetRewardsRate)
	c.Check(p.FinalReward == fin.Uint64(), "derived", "the final reward is %d instead of %s", p.FinalReward, fin)
	about("the initial reward", p.InitialReward, float64(p.FinalReward)*math.Exp(beta*delta*float64(p.Bootstrapping)))
}

// maxWork is a bound of the work of any block, 0 if it is above all numbers.
func maxWork(p *model.Params) iotago.WorkScore {
	s := uint64(p.WDataByte)*iotago.MaxPayloadSize + uint64(p.WBlock) + uint64(p.WInput)*iotago.MaxInputsCount + uint64(p.WContextInput)*iotago.MaxContextInputsCount +
		(uint64(p.WOutput)+uint64(p.WNativeToken)+uint64(p.WStaking)+uint64(p.WBlockIssuer))*iotago.MaxOutputsCount + uint64(p.WAllotment)*iotago.MaxAllotmentCount + uint64(p.WSignature)*iotago.MaxInputsCount*10
	if s > math.MaxUint32 {
		return 0
	}
	return iotago.WorkScore(s)
}

func apiOf(pp iotago.ProtocolParameters) (api iotago.API) {
	defer func() {
		if recover() != nil {
			api = nil
		}
	}()
	return iotago.V3API(pp)
}

// fields are the parameters one of which differs in a twin.
var fields = []func(r *core.RNG, p *model.Params){
	func(r *core.RNG, p *model.Params) { p.Version ^= 1 << r.Intn(8) },
	func(r *core.RNG, p *model.Params) { p.NetworkName += "x" },
	func(r *core.RNG, p *model.Params) { p.HRP += "x" },
	func(r *core.RNG, p *model.Params) { flip64(r, &p.StorageCost) },
	func(r *core.RNG, p *model.Params) { p.FactorData ^= 1 << r.Intn(8) },
	func(r *core.RNG, p *model.Params) {
		flip64(r, core.Pick(r, []*uint64{&p.OffOutput, &p.OffIssuerKey, &p.OffStaking, &p.OffDelegation}))
	},
	func(r *core.RNG, p *model.Params) {
		flip32(r, core.Pick(r, []*uint32{&p.WDataByte, &p.WBlock, &p.WInput, &p.WContextInput, &p.WOutput, &p.WNativeToken, &p.WStaking, &p.WBlockIssuer, &p.WAllotment, &p.WSignature}))
	},
	func(r *core.RNG, p *model.Params) {
		*core.Pick(r, []*byte{&p.ManaBits, &p.GenRate, &p.GenRateExp, &p.DecayExp, &p.EpochsSumExp, &p.AnnualDecay}) ^= 1 << r.Intn(8)
	},
	func(r *core.RNG, p *model.Params) {
		if n := len(p.DecayFactors); n > 0 {
			flip32(r, &p.DecayFactors[core.Pick(r, []int{0, n - 1, r.Intn(n)})])
		}
	},
	func(r *core.RNG, p *model.Params) {
		if n := len(p.DecayFactors); n > 0 {
			p.DecayFactors = p.DecayFactors[:n-1]
		}
	},
	func(r *core.RNG, p *model.Params) { flip32(r, &p.EpochsSum) },
	func(r *core.RNG, p *model.Params) { flip64(r, &p.Supply) },
	func(r *core.RNG, p *model.Params) { flip32(r, &p.GenesisSlot) },
	func(r *core.RNG, p *model.Params) { p.GenesisUnix ^= 1 << r.Intn(63) },
	func(r *core.RNG, p *model.Params) { *core.Pick(r, []*byte{&p.SlotDuration, &p.SPE}) ^= 1 << r.Intn(8) },
	func(r *core.RNG, p *model.Params) { flip32(r, &p.Unbonding) },
	func(r *core.RNG, p *model.Params) { p.ValBlocks ^= 1 << r.Intn(8) },
	func(r *core.RNG, p *model.Params) { flip32(r, &p.Punishment) },
	func(r *core.RNG, p *model.Params) {
		*core.Pick(r, []*uint16{&p.LivenessLow, &p.LivenessHigh, &p.Retention}) ^= 1 << r.Intn(16)
	},
	func(r *core.RNG, p *model.Params) {
		flip32(r, core.Pick(r, []*uint32{&p.MinCA, &p.MaxCA, &p.EpochNearing}))
	},
	func(r *core.RNG, p *model.Params) {
		flip64(r, core.Pick(r, []*uint64{&p.MinRMC, &p.RMCInc, &p.RMCDec}))
	},
	func(r *core.RNG, p *model.Params) {
		flip32(r, core.Pick(r, []*uint32{&p.IncThr, &p.DecThr, &p.SchedulerRate, &p.MaxBuf, &p.MaxValBuf}))
	},
	func(r *core.RNG, p *model.Params) {
		*core.Pick(r, []*byte{&p.VSWindow, &p.VSTarget, &p.VSOffset}) ^= 1 << r.Intn(8)
	},
	func(r *core.RNG, p *model.Params) {
		*core.Pick(r, []*byte{&p.ProfitMargin, &p.RewardGenRatio, &p.PoolCoeff}) ^= 1 << r.Intn(8)
	},
	func(r *core.RNG, p *model.Params) { flip32(r, &p.Bootstrapping) },
	func(r *core.RNG, p *model.Params) {
		flip64(r, core.Pick(r, []*uint64{&p.InitialReward, &p.FinalReward}))
	},
	func(r *core.RNG, p *model.Params) {
		*core.Pick(r, []*byte{&p.CommitteeSize, &p.ChainSwitching}) ^= 1 << r.Intn(8)
	},
}

func flip32(r *core.RNG, x *uint32) { *x ^= 1 << r.Intn(32) }
func flip64(r *core.RNG, x *uint64) { *x ^= 1 << r.Intn(64) }

// twin meets parameters that differ in one field, or in none.
func (w *genesis) twin(r *core.RNG) {
	c, q := w.c, *w.p
	q.DecayFactors = append([]uint32(nil), q.DecayFactors...)
	if !r.Pct(15) {
		core.Pick(r, fields)(r, &q)
	}
	b := q.Bytes()
	got, n, err := iotago.ProtocolParametersFromBytes(bytes.Clone(b))
	c.Check(err == nil && n == len(b), "twin", "parameters that differ in one number do not decode: %v", err)
	back, err := got.Bytes()
	c.Check(err == nil && bytes.Equal(back, b), "twin", "parameters have other bytes after decoding:\n%x\n%x", back, b)
	same := bytes.Equal(b, w.disk)
	c.Check(got.Equals(w.pp) == same && w.pp.Equals(got) == same, "equal", "parameters with the same bytes: %v, equal: %v and %v\n%+v\n%+v", same, got.Equals(w.pp), w.pp.Equals(got), &q, w.p)
	h1, err1 := got.Hash()
	h2, err2 := w.pp.Hash()
	c.Check(err1 == nil && err2 == nil && (h1 == h2) == same, "hash", "parameters with the same bytes: %v, the same hash: %v", same, h1 == h2)
	type equaler interface{ Equals(iotago.API) bool }
	if other, ok := apiOf(got).(equaler); ok {
		c.Check(other.Equals(w.api) == same && w.api.(equaler).Equals(other.(iotago.API)) == same, "equal", "interfaces of networks with the same parameters: %v, equal: %v", same, other.Equals(w.api))
	}
}

// hoard lets the owner of all tokens claim the mana and the rewards of the whole network whenever they like.
func (w *genesis) hoard(r *core.RNG) {
	c, p, mdp := w.c, w.p, w.api.ManaDecayProvider()
	// A decay factor that is hardly below one needs more digits than a coarse exponent has.
	if float64(p.SlotDuration)*math.Ldexp(1, int(p.SPE)+int(p.DecayExp))/year*-math.Log(float64(p.AnnualDecay)/100) < 16 {
		return
	}
	limit := new(big.Int).Lsh(big.NewInt(1), uint(p.ManaBits))
	slot, mana := p.GenesisSlot, uint64(0)
	pay, epoch := r.Bool(), uint32(0)
	for i := r.Range(3, 60); i > 0; i-- {
		step := r.U32() >> r.Range(5, 32)
		if uint64(slot)+uint64(step) >= 1<<32-1<<18 {
			break
		}
		to := slot + step
		kept, err := mdp.DecayManaBySlots(iotago.Mana(mana), iotago.SlotIndex(slot), iotago.SlotIndex(to))
		want, _ := p.DecayBySlots(mana, slot, to)
		c.Check(err == nil && want.IsUint64() && want.Uint64() == uint64(kept), "hoard", "%d mana decays from slot %d to %d to %d instead of %d: %v", mana, slot, to, kept, want, err)
		made, err := mdp.GenerateManaAndDecayBySlots(iotago.BaseToken(p.Supply), iotago.SlotIndex(slot), iotago.SlotIndex(to))
		want, ok := p.Generate(p.Supply, slot, to)
		c.Check(ok && err == nil && want.IsUint64() && want.Uint64() == uint64(made), "hoard", "all tokens make %d mana from slot %d to %d instead of %v: %v\n%+v", made, slot, to, want, err, p)
		sum := new(big.Int).Add(new(big.Int).SetUint64(uint64(kept)), new(big.Int).SetUint64(uint64(made)))
		if pay {
			// the rewards of the epochs that passed, decayed since
			now := p.Epoch(to)
			for ; epoch < now && now-epoch > 3000; epoch++ {
				epoch = now - 3000 // the rest is left unclaimed
			}
			for ; epoch < now; epoch++ {
				t, err := w.pp.RewardsParameters().TargetReward(iotago.EpochIndex(epoch), w.api)
				c.Check(err == nil, "hoard", "no target reward: %v", err)
				d, err := mdp.DecayManaByEpochs(t, iotago.EpochIndex(epoch), iotago.EpochIndex(now))
				c.Check(err == nil, "hoard", "no decay of a reward: %v", err)
				sum.Add(sum, new(big.Int).SetUint64(uint64(d)))
			}
		}
		c.Check(sum.Cmp(limit) < 0, "too-much-mana", "%d mana exist in slot %d of a network that knows %d bits of it\n%+v", sum, to, p.ManaBits, p)
		slot, mana = to, sum.Uint64()
		c.Steps++
	}
	c.Logf("hoard: %d mana in slot %d", mana, slot)
}

// rewards follows the target reward along the epochs.
func (w *genesis) rewards(r *core.RNG) {
	c, p := w.c, w.p
	last := ^uint64(0)
	e := uint32(0)
	for i := r.Range(3, 20); i > 0; i-- {
		got, err := w.pp.RewardsParameters().TargetReward(iotago.EpochIndex(e), w.api)
		want := p.FinalReward
		if e <= p.Bootstrapping {
			want = p.Decay(new(big.Int).SetUint64(p.InitialReward), e).Uint64()
		}
		c.Check(err == nil && uint64(got) == want, "reward", "the target reward of epoch %d is %d instead of %d: %v\n%+v", e, got, want, err, p)
		c.Check(uint64(got) <= last || e > p.Bootstrapping, "reward", "the target reward grows from %d to %d in epoch %d", last, got, e)
		last = uint64(got)
		switch r.Intn(4) {
		case 0:
			e += uint32(r.Range(1, 3))
		case 1:
			e += p.Bootstrapping / 5
		case 2:
			if n := uint32(len(p.DecayFactors)); n > 0 {
				e = e/max(n, 1)*n + n + uint32(r.Intn(3)) - 1
			}
		case 3:
			e = max(e, p.Bootstrapping+uint32(r.Intn(3))-1)
		}
	}
}
