#!/bin/bash
# Development helper: runs the check of each planted bug's property (or the checks given by CHECKS) with the bug applied.
# usage: trybugs.sh ID...
cd /verif
for i in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  for p in ${CHECKS:-$prop}; do
    s=$(date +%s)
    out=$(timeout 900 python3 check.py $p 2>&1); rc=$?
    echo "$i $p rc=$rc $(($(date +%s)-s))s | $(echo "$out" | grep -v KNOWN | grep -v VIOLATION | head -1 | cut -c1-260)"
  done
  git -C /repo checkout -q -- .
done
git -C /repo status --short
