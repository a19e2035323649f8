#!/bin/bash
# catch.sh [tier] id... : apply each planted bug to /repo, run its property's check(s), undo (development tool)
cd /verif
for id in "$@"; do
  d=seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  git -C /repo apply /verif/$d/patch.diff || { echo "$id: patch does not apply"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} python3 tools/check.py ${PROP:-$p} quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ${PROP:-$p} rc=$rc $(echo "$out" | grep -c VIOLATION) :: $(echo "$out" | head -1 | cut -c1-160)"
done
