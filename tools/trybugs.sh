#!/bin/bash
# usage: trybugs.sh [ID...]: runs the property's quick check against each planted bug (on a scratch copy of /repo)
V=$(cd "$(dirname "$0")/.." && pwd); cd $V
W=$(mktemp -d); cp -a /repo $W/repo
for d in seeded/*/; do
  id=$(basename $d); [ $# -gt 0 ] && ! echo " $* " | grep -q " $id " && continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $W/repo checkout -q -- . ; git -C $W/repo apply $V/$d/patch.diff || { echo "$id STALE"; continue; }
  out=$(SBC_REPO=$W/repo VERIF_SEED=1 timeout 900 python3 check.py $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -c "VIOLATION property=$p") $(echo "$out" | grep cases | tail -1)"
done
rm -rf "$W"
