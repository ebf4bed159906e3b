#!/bin/bash
# which check catches which planted bug:  tools/seedcheck.sh [id...]
cd "$(dirname "$0")/.."
r=/tmp/seedwork/repo
for d in ${@:-$(ls seeded)}; do
  git -C $r checkout -q .; git -C $r apply $PWD/seeded/$d/patch.diff
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  VP_REPO=$r python3 check.py $p > /tmp/w/sc.out 2>&1; rc=$?
  echo "$d $p $([ $rc = 1 ] && echo caught || echo MISSED rc=$rc)"
  [ $rc = 1 ] || tail -3 /tmp/w/sc.out | cut -c1-600
done
git -C $r checkout -q .
