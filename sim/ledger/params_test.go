package ledger

import (
	"bytes"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"verif.local/sim/core"
)

func TestParams(t *testing.T) {
	for i := 0; i < 200; i++ {
		p := GenParams(core.NewRNG(uint64(i)))
		b := p.Bytes()
		pp, n, err := iotago.ProtocolParametersFromBytes(b)
		if err != nil || n != len(b) {
			t.Fatal(i, err, n, len(b))
		}
		b2, _ := pp.Bytes()
		if !bytes.Equal(b, b2) {
			t.Fatal("differ")
		}
		if pp.NetworkID() != iotago.NetworkID(p.NetworkID()) {
			t.Fatal("network id")
		}
		if i == 0 {
			t.Log(pp)
		}
		RealAPI(p)
	}
}
func BenchmarkAPI(b *testing.B) {
	p := GenParams(core.NewRNG(1))
	for i := 0; i < b.N; i++ {
		RealAPI(p)
	}
}
