#!/bin/bash
# runseeds.sh [id...]: runs each planted bug's check against /repo with the bug applied (and undone).
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  out=$(python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d ($p): rc=$rc $(echo "$out" | grep -c VIOLATION)"
  [ $rc = 1 ] || echo "$out" | tail -3
done
