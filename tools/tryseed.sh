#!/bin/bash
# tryseed.sh ID...: apply each planted change to /repo, run its property's check, undo
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep VIOLATION -B1 | head -2 | cut -c1-260)"
  if [ $rc -ne 1 ]; then echo "$out" | cut -c1-250 | tail -12; fi
done
