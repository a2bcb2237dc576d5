#!/bin/bash
# catch.sh IDs...: run the check of each planted bug's property against /repo with the bug applied (sequential; restores /repo)
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt engine/run.py $p > /tmp/catch.$id 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id: rc=$rc $(($(date +%s)-s))s $(grep -a VIOLATION /tmp/catch.$id | head -1)"
done
