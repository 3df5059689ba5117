#!/bin/bash
# tools/seedrun.sh ID [PROP...]: applies a planted bug to /repo, runs the checks, undoes it.
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
for p in $props; do
 cd /verif; VERIF_SEED=${VERIF_SEED:-1} ./run.sh $p quick >/tmp/seedrun.$id.$p 2>&1; echo "$id $p rc=$? $(grep -a VIOLATION /tmp/seedrun.$id.$p | cut -c1-200)"
done
git -C /repo checkout -- .
