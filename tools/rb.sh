#!/bin/bash
# rb.sh [REPO [DIR]]: rebuild the instrumented checker DIR/checkr (default /tmp) from REPO (default /repo)
export REPO=${1:-/repo} O=${2:-/tmp}
[ "$REPO" = . ] && REPO=/repo
. /opt/vp/env.sh; export GOFLAGS=-mod=mod; W=$O/ovw; rm -rf "$O/ovw" "$O/ov"; mkdir -p $W; cd /verif/sim && bash gen_gomod.sh $W && go run -modfile=$W/go.mod ./cmd/instrument -repo $REPO -out $O/ov && bash seam_serix.sh $W && go build -modfile=$W/go.mod -race -overlay $O/ov/overlay.json -o $O/checkr ./cmd/check
