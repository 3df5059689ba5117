// Package ledger simulates a small network of nodes that keep a ledger with the real decoding, unlock validation and
// VM code of the repository, honest and byzantine clients, a faulty network and crashing disks.
package ledger

import (
	"math"
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

// GenParams draws protocol parameters. They satisfy the constraints the protocol documents for them.
func GenParams(r *core.RNG) *model.Params {
	p := &model.Params{Version: 3}
	p.NetworkName = core.Pick(r, []string{"sim", "testnet", "iota-mainnet", "x"})
	p.HRP = core.Pick(r, []string{"rms", "iota", "smr", "tst"})
	p.StorageCost = core.Pick(r, []uint64{0, 1, 1, 10, 100, 500})
	p.FactorData = byte(r.Range(1, 3))
	p.OffOutput = core.Pick(r, []uint64{0, 10, 777})
	p.OffIssuerKey = core.Pick(r, []uint64{0, 10, 333})
	p.OffStaking = core.Pick(r, []uint64{0, 10, 1000})
	p.OffDelegation = core.Pick(r, []uint64{0, 10, 1000})
	for _, f := range []*uint32{&p.WDataByte, &p.WBlock, &p.WInput, &p.WContextInput, &p.WOutput, &p.WNativeToken, &p.WStaking, &p.WBlockIssuer, &p.WAllotment, &p.WSignature} {
		*f = core.Pick(r, []uint32{0, 1, 2, 7, 100, 2500, 14000})
	}
	p.ManaBits = core.Pick(r, []byte{63, 63, 63, 62, 50, 44})
	p.GenRate = core.Pick(r, []byte{1, 1, 2, 5, 17})
	p.GenRateExp = byte(r.Range(8, 27))
	p.GenesisSlot = core.Pick(r, []uint32{0, 0, 0, 1, 3, 10, 100, 65535})
	p.GenesisUnix = core.Pick(r, []int64{1600000000, 1700000000, 1, 1500000001})
	p.SlotDuration = byte(core.Pick(r, []int{1, 2, 10, 10, 13}))
	p.SPE = byte(r.Range(2, 6))
	spe := 1 << p.SPE
	p.MinCA = uint32(r.Range(1, max(1, spe/4)))
	p.MaxCA = p.MinCA + uint32(r.Range(1, max(1, spe/4)))
	if spe == 4 {
		p.MinCA, p.MaxCA = 1, 2
	}
	p.EpochNearing = p.MaxCA + uint32(r.Range(1, max(1, spe-int(p.MaxCA)-1)))
	p.Unbonding = uint32(r.Range(1, 4))

	// decay
	n := r.Range(1, 30)
	d := core.Pick(r, []float64{0.5, 0.8, 0.95, 0.99, 0.999, 0.99999})
	p.DecayExp = byte(r.Range(16, 32))
	one := math.Ldexp(1, int(p.DecayExp))
	f := 1.0
	for i := 0; i < n; i++ {
		f *= d
		x := math.Floor(one * f)
		if x > math.MaxUint32 {
			x = math.MaxUint32
		}
		p.DecayFactors = append(p.DecayFactors, uint32(x))
	}
	sum := d / (1 - d)
	p.EpochsSumExp = 20
	for e := 31; e >= 0; e-- {
		if math.Floor(math.Ldexp(sum, e))*float64(p.GenRate) < math.MaxUint32 {
			p.EpochsSumExp = byte(e)
			break
		}
	}
	p.EpochsSum = uint32(math.Floor(math.Ldexp(sum, int(p.EpochsSumExp))))
	for int(p.EpochsSumExp)+int(p.GenRateExp)-int(p.SPE) < 0 {
		p.GenRateExp++
	}
	p.AnnualDecay = 70

	p.Supply = core.Pick(r, []uint64{1_000_000_000, 1_813_620_509_061_365, 1 << 40, 1 << 52})
	// The mana that all tokens generate over time fits into the bits of mana.
	for math.Ldexp(float64(p.Supply)*float64(p.GenRate)*(sum+1), int(p.SPE)-int(p.GenRateExp)) >= math.Ldexp(1, int(p.ManaBits)-1) {
		p.GenRateExp++
	}
	p.ValBlocks, p.Punishment = 10, 10
	p.LivenessLow, p.LivenessHigh = 15, 30
	p.MinRMC, p.RMCInc, p.RMCDec = core.Pick(r, []uint64{0, 1, 500}), 10, 10
	p.IncThr, p.DecThr, p.SchedulerRate, p.MaxBuf, p.MaxValBuf = 400_000_000, 250_000_000, 50_000_000, 1000, 100
	p.VSWindow, p.VSTarget, p.VSOffset = 7, 5, 7
	p.ProfitMargin, p.Bootstrapping, p.RewardGenRatio = 8, 1079, 2
	p.InitialReward, p.FinalReward, p.PoolCoeff, p.Retention = 616067521149261, 226702563632670, 11, 384
	p.CommitteeSize, p.ChainSwitching = 32, 3
	return p
}

// RealAPI decodes the wire form of the parameters with the real code.
func RealAPI(p *model.Params) iotago.API {
	pp, _, err := iotago.ProtocolParametersFromBytes(p.Bytes())
	if err != nil {
		panic("protocol parameters: " + err.Error())
	}
	return iotago.V3API(pp)
}

func bigU(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
