#!/bin/bash
# applies each seeded change to /repo, runs the check of its property, undoes it
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  t=$SECONDS
  python3 tools/check.py $p > /tmp/tryseed.$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $((SECONDS-t))s $(grep VIOLATION /tmp/tryseed.$id.log | head -2 | tr '\n' ' ')"
done
