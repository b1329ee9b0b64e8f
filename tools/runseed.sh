#!/bin/bash
# runseed.sh ID...: applies each seeded change to /repo, runs its property's quick check, undoes it
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); out=$(timeout 900 bash /verif/check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION)"
done
