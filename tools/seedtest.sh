#!/bin/bash
# seedtest.sh NAME [nocheck]: confirm a planted bug and see whether the checks catch it
N=$1; D=/verif/seeded/$N; PID=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo && git diff --quiet || { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1; bash $D/demo.sh >/tmp/sd0.log 2>&1; echo "$N unchanged: demo rc=$? (want 0)"
git apply $D/patch.diff || exit 1
/tmp/t.sh
bash $D/demo.sh >/tmp/sd1.log 2>&1; echo "$N planted: demo rc=$? (want !=0) $(tail -1 /tmp/sd1.log)"
if [ "$2" != nocheck ]; then (cd /verif && timeout 900 python3 check.py $PID > /tmp/sc_$N.log 2>&1; echo "check rc=$? (want 1)"; grep -e VIOLATION -e violated -e '^note' /tmp/sc_$N.log | cut -c1-200); fi
git checkout -q -- . ; bash /opt/vp/build.sh >/tmp/b.log 2>&1
