#!/bin/bash
# runs the matching check against each seeded bug in a scratch copy; usage: runseeds.sh [id...]
cd "$(dirname "$0")/.." || exit 1
R=/tmp/seedrun; mkdir -p $R
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  rm -rf $R/repo; git clone -q /repo $R/repo; cp /repo/Cargo.lock $R/repo/ 2>/dev/null
  git -C $R/repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch fails"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  VERIF_DEV_REPO=$R/repo VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p > $R/$id.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION $R/$id.log)"
done
rm -rf $R/repo
