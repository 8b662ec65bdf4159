#!/bin/bash
# developer helper: apply each seeded change to /repo, run the check of its property, undo.
# usage: runseeds.sh [id ...]
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 1; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p quick > /tmp/seed.$id.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^VIOLATION' /tmp/seed.$id.out)"
done
