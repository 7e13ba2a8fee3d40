#!/bin/bash
# development aid: run each planted bug's check on a patched copy; usage: seedrun.sh [ID...]
cd "$(dirname "$0")/.."
for s in ${@:-$(ls seeded)}; do
  pid=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  rm -rf /tmp/seedrun_repo && cp -a /repo /tmp/seedrun_repo && git -C /tmp/seedrun_repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s APPLY FAIL"; continue; }
  t=$SECONDS
  VERIF_REPO=/tmp/seedrun_repo timeout 900 python3 run.py $pid > /tmp/seedrun_$s.log 2>&1; rc=$?
  echo "$s $pid rc=$rc violations=$(grep -c '^VIOLATION' /tmp/seedrun_$s.log) $((SECONDS-t))s $(grep '^VIOLATION' /tmp/seedrun_$s.log | head -2 | sed 's/.*replays.//' | tr '\n' ' ')"
done
rm -rf /tmp/seedrun_repo
