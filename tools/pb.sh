#!/bin/bash
# pb.sh [REPO [DIR]]: rebuild the plain checker (only map order instrumented) DIR/checkm from REPO
export REPO=${1:-/repo} O=${2:-/tmp}
[ "$REPO" = . ] && REPO=/repo
. /opt/vp/env.sh; export GOFLAGS=-mod=mod; W=$O/ovwm; rm -rf "$O/ovwm" "$O/ovm"; mkdir -p $W; cd /verif/sim && bash gen_gomod.sh $W && go run -modfile=$W/go.mod ./cmd/instrument -maps -repo $REPO -out $O/ovm && bash seam_serix.sh $W && go build -modfile=$W/go.mod -overlay $O/ovm/overlay.json -o $O/checkm ./cmd/check
