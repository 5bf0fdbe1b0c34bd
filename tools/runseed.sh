#!/bin/bash
# Development helper: apply a seeded bug to /repo, run its property's check, undo.
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
  bash /verif/run.sh $p > /tmp/runseed.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/runseed.log)"
done
