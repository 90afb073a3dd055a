#!/bin/bash
# tools/catch.sh [ID...]: runs the quick check of its property against every seeded change (or those named), one at a time.
cd /verif/seeded; [ $# = 0 ] && set -- *
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id DOES-NOT-APPLY"; continue; }
  s=$(date +%s); out=$(VERIF_SEED=1 /verif/check.sh "$p" quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-160)"
done
/verif/check.sh build
