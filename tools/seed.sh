#!/bin/bash
# tools/seed.sh ID...: confirms planted bugs in a scratch copy of /repo: patch applies, builds, stable tests pass, demo 0 without and nonzero with it.
for id in "$@"; do
 d=/verif/seeded/$id
 s=$(mktemp -d /tmp/seed.XXXXXX)
 cp -a /repo/. $s/
 cp -r $d $s.demo
 . /opt/vp/env.sh
 cd $s
 ok=1
 bash $s.demo/demo.sh >$s.out0 2>&1; r0=$?
 [ $r0 = 0 ] || { echo "$id: demo fails on clean tree ($r0)"; tail -20 $s.out0; ok=0; }
 git apply $d/patch.diff || { echo "$id: patch does not apply"; ok=0; }
 go build ./... || ok=0
 bash $s.demo/demo.sh >$s.out1 2>&1; r1=$?
 [ $r1 != 0 ] && [ $r1 != 99 ] || { echo "$id: demo does not fail with patch ($r1)"; tail -5 $s.out1; ok=0; }
 go test -vet=off ./... 2>&1 | grep -v "no test files" | grep -E "^(---|    ---|FAIL|panic)" | head -5 > $s.t
 [ -s $s.t ] && { echo "$id: existing tests fail"; cat $s.t; ok=0; }
 [ $ok = 1 ] && echo "$id: confirmed" 
 cd /; rm -rf "$s" "$s.demo" "$s.out0" "$s.out1" "$s.t"
done
