#!/bin/bash
# runseeds.sh [ID...]: apply each planted bug to /repo, run the check of its property, undo it
cd /verif/seeded
for id in ${*:-$(ls)}; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  (cd /verif && ./check $p > /tmp/seed-$id.log 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit=$r $(( $(date +%s)-s ))s $(grep -c '^VIOLATION.*no-failing' /tmp/seed-$id.log) unconfirmed $(grep -m1 -B1 '^VIOLATION' /tmp/seed-$id.log | head -1 | cut -c1-150)"
done
