#!/bin/bash
# catch.sh ID...: applies each planted bug to /repo in turn, runs its property's quick
# check, undoes the change and says whether the check reported it. Not while vcheck runs.
cd /verif || exit 1
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check.py $p > /tmp/catch.out 2>&1; rc=$?
  git -C /repo checkout -- .
  e=$(( $(date +%s) - s ))
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/catch.out; then echo "$id: CAUGHT ${e}s"; else echo "$id: MISSED rc=$rc ${e}s"; tail -3 /tmp/catch.out | cut -c1-300; fi
done
