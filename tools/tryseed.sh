#!/bin/bash
# tryseed.sh ID...: run the check of each planted bug on /repo with the bug applied, then undo it
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || exit 1
  python3 /verif/run.py $p > /tmp/tryseed.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(grep -m1 -A1 VIOLATION /tmp/tryseed.out | tail -1)"
done
