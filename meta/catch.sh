#!/bin/bash
# catch.sh ID...: apply each seeded change to /repo, run the check of its property, undo
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && MC_TARGET_DIR=/tmp/catch-target ./run.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ($p): rc=$rc $(echo "$out" | grep -c '^VIOLATION') violations; $(echo "$out" | grep -m1 'what:' | cut -c1-150)"
  [ $rc = 1 ] || echo "$out" | tail -5
done
