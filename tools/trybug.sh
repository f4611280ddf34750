#!/bin/bash
# tools/trybug.sh <seed id>... : apply each planted bug to /repo, run its property's quick check, undo
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 run.py $p > /tmp/try_$id.log 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -c VIOLATION /tmp/try_$id.log)"
done
