#!/bin/bash
# try.sh [id...]: applies each planted bug to /repo, runs its property's check, undoes it.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  o=$(timeout 900 python3 bin/check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(echo "$o" | grep -c VIOLATION) $(echo "$o" | grep '  run' | head -1)"
done
