#!/bin/bash
# bugs.sh ID... : apply each planted bug to /repo, run its property's quick check, undo
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  o=$(python3 check.py $p quick 2>/dev/null); rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<<"$o"; then echo "$i caught by $p"; else echo "$i MISSED by $p rc=$rc"; echo "$o" | tail -5 | cut -c1-600; fi
done
