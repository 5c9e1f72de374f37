#!/bin/bash
# catch.sh [ID...]: which seeded change does the check of its property report
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  out=$(timeout 900 ./check $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -m1 -v '^VIOLATION' | cut -c1-200)"
done
