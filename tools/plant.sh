#!/bin/bash
# Development aid: plant.sh <bug-id> [check-id...]: confirms a planted bug in a scratch copy of /repo (builds, existing
# tests pass, demo passes before and fails after) and runs the named checks against the copy.
B=$1; shift; V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$B; W=/tmp/plant.$B
rm -rf "/tmp/plant.$B"; cp -a /repo $W; cd $W
cp -r $S /tmp/plant.$B.demo; chmod +x /tmp/plant.$B.demo/demo.sh
unshare -Urm bash -c "mount --bind $W /repo; cd /repo
bash /tmp/plant.$B.demo/demo.sh > /tmp/plant.$B.d0 2>&1; echo demo-unchanged=\$?
git apply $S/patch.diff || echo APPLY-FAILED
bash /opt/vp/build.sh > /tmp/plant.$B.b 2>&1 || echo BUILD-FAILED
bash /opt/vp/test.sh /tmp/plant.$B.json 2>&1 | tail -1
bash /tmp/plant.$B.demo/demo.sh > /tmp/plant.$B.d1 2>&1; echo demo-patched=\$?; tail -2 /tmp/plant.$B.d1
for c in $*; do python3 $V/run.py \$c > /tmp/plant.$B.\$c; echo check \$c rc=\$?; grep -a 'key=\|quick:' /tmp/plant.$B.\$c | cut -c1-160 | head -4; done"
rm -rf "/tmp/plant.$B" "/tmp/plant.$B.demo"
