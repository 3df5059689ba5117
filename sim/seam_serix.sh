#!/bin/bash
# seam_serix.sh W: copies of the serialization library (W/serializer) and of the helper library (W/lo) whose iteration
# over maps simrt orders, and replacements for them in W/go.mod. Without them everything works, but executions differ
# where Go iterates over a map.
W=$1
cd "$(dirname "$0")" || exit 0

take() { # take PACKAGE NAME FILE PATTERN: copies a module if it is what this script knows
	D=$(go list -modfile="$W/go.mod" -m -f '{{.Dir}}' "$1" 2>/dev/null)
	[ -f "$D/$3" ] && grep -q "$4" "$D/$3" || return 1
	cp -r "$D" "$W/$2" && chmod -R u+w "$W/$2" || return 1
	find "$W/$2" -name '*_test.go' -delete
}

P=github.com/iotaledger/hive.go/serializer/v2
if take $P serializer serix/encode.go 'value.MapRange()'; then
	sed -i 's/value\.MapRange()/simMapRange(value)/' "$W/serializer/serix/encode.go" "$W/serializer/serix/map_encode.go"
	# and with a stand-in for allocations of any size a message asks for
	grep -q '^	dest := make(\[\]byte, sliceLength)$' "$W/serializer/serializer.go" && sed -i -e 's/^	dest := make(\[\]byte, sliceLength)$/	dest := make([]byte, simrt.AllocLen(sliceLength))/' \
		-e 's|^import ($|&\n	"verif.local/sim/simrt"\n|' "$W/serializer/serializer.go"
	cat >"$W/serializer/serix/sim_maps.go" <<'G'
package serix

import (
	"reflect"

	"verif.local/sim/simrt"
)

type simIter struct {
	m    reflect.Value
	keys []reflect.Value
	at   int
}

func simMapRange(m reflect.Value) *simIter { return &simIter{m, simrt.MapKeys(m), -1} }

func (s *simIter) Next() bool           { s.at++; return s.at < len(s.keys) }
func (s *simIter) Key() reflect.Value   { return s.keys[s.at] }
func (s *simIter) Value() reflect.Value { return s.m.MapIndex(s.keys[s.at]) }
G
	echo "replace $P => $W/serializer" >>"$W/go.mod"
fi

P=github.com/iotaledger/hive.go/lo
if take $P lo lo.go '^	for k, v := range in {$'; then
	sed -i -e 's/^	for k, v := range in {$/	for _, simE := range simrt.Entries(in) {\n		k, v := simE.K, simE.V()/' \
		-e 's/^	for k := range in {$/	for _, simE := range simrt.Entries(in) {\n		k := simE.K/' \
		-e '/^func Values\[/,/^}/s/^	for _, v := range in {$/	for _, simE := range simrt.Entries(in) {\n		v := simE.V()/' \
		-e '/^func FilterByValue\[/,/^}/s/^	for key, value := range collection {$/	for _, simE := range simrt.Entries(collection) {\n		key, value := simE.K, simE.V()/' \
		-e 's|^import ($|&\n	"verif.local/sim/simrt"\n|' "$W/lo/lo.go"
	echo "replace $P => $W/lo" >>"$W/go.mod"
fi
exit 0
