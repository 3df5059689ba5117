#!/bin/bash
# tools/seedtry.sh ID [PROP...]: like seedrun.sh, but on a copy of /repo (leaves /repo alone); prints what each check finds
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
D=$(mktemp -d /tmp/seedtry.XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"; git -C "$D/repo" apply /verif/seeded/$id/patch.diff || exit 2
cp /verif/known-findings.txt $D
. /opt/vp/env.sh; export GOFLAGS=-mod=mod
for p in $props; do
 case $p in C*|K*|B05|W02) exe=$D/checkr; [ -x $exe ] || bash /verif/tools/rb.sh $D/repo $D >$D/b.log 2>&1 || { echo "$id: build fails"; tail -5 $D/b.log; exit 2; };;
 *) exe=$D/checkm; [ -x $exe ] || bash /verif/tools/pb.sh $D/repo $D >$D/b.log 2>&1 || { echo "$id: build fails"; tail -5 $D/b.log; exit 2; };;
 esac
 (cd /tmp; timeout 900 $exe -property $p -tier ${TIER:-quick} -seed ${SEED:-1} -dir $D) >$D/o.$p 2>&1; rc=$?
 echo "$id $p rc=$rc $(grep -aE '^violation|VIOLATION' $D/o.$p | head -2 | tr '\n' ' ' | cut -c1-300)"
done
