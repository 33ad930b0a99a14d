#!/bin/bash
# tryseeds.sh [ids...]: applies each seeded change to a copy of /repo and runs the check of its property on it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/tryseed_XXXXXX)
  git -C /repo archive HEAD | tar -x -C $w
  (cd $w && git init -q && git apply /verif/seeded/$d/patch.diff) || { echo "$d NOAPPLY"; rm -rf "$w"; continue; }
  VERIF_REPO=$w python3 check.py $p quick > /tmp/try_$d.log 2>&1; rc=$?
  rm -rf "$w"
  echo "$d $p rc=$rc $(grep -E 'violations, clauses' /tmp/try_$d.log | cut -c1-150)"
done
