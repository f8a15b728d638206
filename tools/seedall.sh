#!/bin/bash
# runs the property's check against every planted bug in /verif/seeded (development only; no check uses this)
cd /verif
for d in seeded/${1:-*}; do
  id=$(basename "$d"); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "/verif/$d/patch.diff" || { echo "$id APPLY-FAILED"; continue; }
  python3 run.py "$p" > /tmp/seedall.out 2>&1; rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" /tmp/seedall.out; then echo "$id $p caught"; else echo "$id $p MISSED rc=$rc"; fi
done
