#!/bin/bash
# seedtest.sh ID [PID...]: validates one planted bug (clean demo passes; patched: stable tests pass, demo fails) and runs the checks on it.
id=$1; shift; d=/verif/seeded/$id
pids="$@"; [ -z "$pids" ] && pids=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 2; }
cp -r $d /tmp/seedx_$id; cd /repo
timeout 300 bash /tmp/seedx_$id/demo.sh >/tmp/seedx.log 2>&1 || { echo "$id DEMO-FAILS-CLEAN"; tail -5 /tmp/seedx.log; }
git apply $d/patch.diff || { echo "$id NOAPPLY"; rm -rf /tmp/seedx_$id; exit 2; }
[ -n "$SKIPTESTS" ] || bash /tmp/t.sh
timeout 300 bash /tmp/seedx_$id/demo.sh >/tmp/seedx.log 2>&1 && echo "$id DEMO-PASSES-PATCHED"
cd /verif
for p in $pids; do VERIF_SEED=${VERIF_SEED:-1} ./check $p ${TIER:-quick} >/tmp/seedx.out 2>&1; rc=$?; echo "$id $p rc=$rc $(grep -m1 '^  \[' /tmp/seedx.out | cut -c1-160)"; done
git -C /repo checkout -- .; rm -rf /tmp/seedx_$id
