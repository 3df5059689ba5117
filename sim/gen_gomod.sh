#!/bin/bash
# Writes go.mod/go.sum of the simulator made from /repo's (same dependency versions, repo replaced by path) into a folder.
set -e
D=${1:-$(dirname "$0")}
REPO=${REPO:-/repo}
{ echo "module verif.local/sim"; sed -n '/^go /,$p' $REPO/go.mod; echo; echo "require github.com/iotaledger/iota.go/v4 v4.0.0"; echo; echo "replace github.com/iotaledger/iota.go/v4 => $REPO"; } > "$D/go.mod"
cat $REPO/go.sum > "$D/go.sum"
