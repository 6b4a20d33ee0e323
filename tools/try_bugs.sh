#!/bin/bash
# try_bugs.sh ID...: applies each planted bug to /repo, runs the check of its property, undoes it.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  python3 run.py "$p" >"/tmp/try-$id.log" 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id ($p): rc=$rc $(( $(date +%s) - s )) s $(grep -c '^VIOLATION' "/tmp/try-$id.log") $(grep -m1 '^VIOLATION' "/tmp/try-$id.log")"
done
git -C /repo status --short
