#!/bin/bash
# caught.sh ID...: applies each planted bug to /repo, runs its property's check and undoes it; prints the outcome
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i APPLY FAILED"; continue; }
  o=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(echo "$o" | grep -E "^unit|^VIOLATION" | cut -c1-150 | tr '\n' '|')"
done
