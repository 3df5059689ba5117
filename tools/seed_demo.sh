#!/bin/bash
# Runs the test beside this file inside the package named on its first line, without writing into the repository.
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
pkg=$(sed -n '1s,^// pkg: *,,p' "$d/demo_test.go")
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s": "%s"}}\n' "$repo/$pkg/zz_demo_test.go" "$d/demo_test.go" >"$t/o.json"
go test -vet=off -overlay "$t/o.json" -count=1 -timeout 200s $DEMO_FLAGS -run '^TestZZDemo' -v "./$pkg" >"$t/out" 2>&1
rc=$?
tail -40 "$t/out"
grep -q '^=== RUN *TestZZDemo' "$t/out" || { echo "demo did not run"; exit 99; }
exit $rc
