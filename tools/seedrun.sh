#!/bin/bash
# seedrun.sh [ids]: apply each planted change to /repo, run the check of its
# property, undo it.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d NO APPLY"; continue; }
  timeout 900 ./run.py $p ${TIER:-quick} > /tmp/seedrun.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(grep -E '^VIOLATION' /tmp/seedrun.log | tail -1)"
done
