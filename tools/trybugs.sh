#!/bin/bash
# Development tool: runs each planted bug's own check (all, or those named).
cd /verif
for d in ${@:-$(ls seeded)}; do
  d=$(basename $d)
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.py $p > /tmp/try.$d.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/try.$d.log)"
done
