#!/bin/bash
# apply each planted bug to /repo, run its property's check, undo
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo dirty; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/sc.out 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$r $(grep -c 'failed obligation' /tmp/sc.out) obligations, native: $(grep -o 'failing input' /tmp/sc.out | head -1) $(grep -m1 'failed obligation' /tmp/sc.out | cut -c1-140) $(grep -m3 'not decided\|structure' /tmp/sc.out | cut -c1-160)"
done
