#!/bin/bash
# catch.sh <id>...: applies a planted change to /repo, runs its property's check, undoes the change
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $p --no-evidence > /tmp/catch-$id.log 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$id ($p): exit $r; $(grep -m1 'refuted' /tmp/catch-$id.log | cut -c1-200)"
done
