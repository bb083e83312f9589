#!/bin/bash
# trybugs.sh [id...]: run the check of each planted bug's property on a patched scratch copy of the header
cd "$(dirname "$0")/.."
for b in ${@:-$(ls seeded)}; do
  w=$(mktemp -d); mkdir $w/r; git -C /repo archive HEAD | tar -x -C $w/r
  (cd $w/r && git init -q . 2>/dev/null; git apply --unsafe-paths $OLDPWD/seeded/$b/patch.diff) || { echo "$b: patch does not apply"; rm -rf "$w"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  s=$(date +%s); out=$(VC_REPO=$w/r VC_EVID=$w python3-vt check.py $p 2>&1); rc=$?
  echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep VIOLATION | head -2 | tr '\n' ' ')"
  rm -rf "$w"
done
