package ledger

import (
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"verif.local/sim/core"
)

func TestMana(t *testing.T) {
	r := core.NewRNG(5)
	bad := 0
	for i := 0; i < 20000 && bad < 8; i++ {
		p := GenParams(r)
		api := RealAPI(p)
		m := api.ManaDecayProvider()
		from := p.GenesisSlot + uint32(r.Intn(100))
		to := from + uint32(r.U64n(1<<uint(r.Range(1, 20))))
		v := r.U64n(1 << uint(r.Range(1, 50)))
		g, err := m.GenerateManaAndDecayBySlots(iotago.BaseToken(v), iotago.SlotIndex(from), iotago.SlotIndex(to))
		mg, ok := p.Generate(v, from, to)
		if ok != (err == nil) || ok && mg.Uint64() != uint64(g) {
			bad++
			t.Errorf("generate %d %d..%d: real %d %v model %v %v (epochs %d, %+v)", v, from, to, g, err, mg, ok, p.Epoch(to)-p.Epoch(from), p)
		}
		d, err := m.DecayManaBySlots(iotago.Mana(v), iotago.SlotIndex(from), iotago.SlotIndex(to))
		md, ok := p.DecayBySlots(v, from, to)
		if ok != (err == nil) || ok && md.Uint64() != uint64(d) {
			bad++
			t.Errorf("decay %d %d..%d: real %d %v model %v %v (epochs %d)", v, from, to, d, err, md, ok, p.Epoch(to)-p.Epoch(from))
		}
	}
}
