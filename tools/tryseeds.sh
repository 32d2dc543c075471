#!/bin/bash
# Apply each planted bug to /repo in turn, run the check of its property, undo.  usage: tryseeds.sh [id ...]
cd /verif
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
  [ -d seeded/$id ] || id=$(basename $(ls -d seeded/$id-* | head -1))
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} python3 tools/check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
done
