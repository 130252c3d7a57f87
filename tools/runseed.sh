#!/bin/bash
# development aid: runseed.sh ID... : apply each planted bug to /repo, run its property's quick check, undo
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  t0=$(date +%s); python3 /verif/check.py ${CHK:-$p} quick > /tmp/seed-$i.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 -B2 VIOLATION /tmp/seed-$i.out | head -c 300 | tr '\n' ' ')"
done
