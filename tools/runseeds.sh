#!/bin/bash
# runseeds.sh [id...]: applies each planted bug to /repo in turn, runs its property's quick check, undoes it.
cd /verif/seeded || exit 1
ids=("$@"); [ $# -eq 0 ] && ids=(*)
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  s=$(date +%s)
  timeout 900 bash /verif/check.sh $p quick > /tmp/seed-$i.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(($(date +%s)-s))s $(grep -m1 '^VIOLATION' /tmp/seed-$i.log) $(grep -m1 'VIOLATED' /tmp/seed-$i.log | cut -c1-150)"
done
