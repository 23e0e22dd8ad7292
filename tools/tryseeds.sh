#!/bin/bash
# tryseeds.sh [ID...]: applies each planted bug to /repo, runs its property's check, undoes it.
cd /verif
. /opt/vp/env.sh
[ $# = 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  timeout 890 python3 check.py $p --tier quick > /tmp/seed.$s.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(grep -m1 -B1 ^VIOLATION /tmp/seed.$s.log | head -1 | cut -c1-150)"
done
