#!/bin/bash
# try.sh TIER ID... : applies each planted bug to /repo, runs its property's check, undoes it
tier=$1; shift
cd /verif
for id in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  t=$SECONDS
  out=$(./check.sh ${PROP:-$prop} $tier 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ${PROP:-$prop} rc=$rc $((SECONDS-t))s $(echo "$out" | grep -m1 ^VIOLATION) :: $(echo "$out" | grep -v ^VIOLATION | grep -m1 -i 'case\|fail\|expected' | cut -c1-200)"
done
