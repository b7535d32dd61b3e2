#!/bin/bash
# mkseed.sh NAME: with /tmp/seed/repo a copy of /repo carrying the change, /tmp/seed/demo_test.go.txt and /tmp/seed/meta.json:
# confirms the change (builds, suite passes, demo passes without and fails with it) and stores it in seeded/NAME.
n=$1; S=/verif/seeded/$n; T=/tmp/seed
mkdir -p $S; git -C $T/repo diff > $S/patch.diff; cp $T/demo_test.go.txt $T/meta.json $S/
cp /verif/tools/seedlib/demo.sh $S/
pkg=$(sed -n '2s#^// ##p' $S/demo_test.go.txt)
case $pkg in internal/config|internal/dtime|internal/queue/message|internal/queue/score|internal/queue/utils) ;; *) tar czf $S/stubs.tgz -C /verif stubs;; esac
ok=1
(cd /repo && bash $S/demo.sh >/tmp/seed/clean.log 2>&1) || { echo "demo fails on the unchanged tree"; tail -20 /tmp/seed/clean.log; ok=0; }
(cd $T/repo && bash $S/demo.sh >/tmp/seed/bug.log 2>&1) && { echo "demo passes with the change"; ok=0; }
grep -q "build failed" /tmp/seed/bug.log && { echo "demo does not build with change"; cat /tmp/seed/bug.log; ok=0; }
REPO=$T/repo /verif/tools/fulltest.sh 2>&1 | grep -v "^ok\|internal/metrics\|TestListenAndServe\|^FAIL$" > /tmp/seed/suite.log; grep -q "^FAIL\|--- FAIL\|panic" /tmp/seed/suite.log && { echo "suite fails:"; head -20 /tmp/seed/suite.log; ok=0; }
git -C /repo apply --check $S/patch.diff || ok=0
[ $ok = 1 ] && echo "seed $n ok: $(grep -m1 'demo_test.go:\|panic' /tmp/seed/bug.log)" || { [ -n "$KEEP" ] || rm -rf "$S"; }
