#!/bin/bash
# usage: catch.sh [ids...]  : run property's check against each seed in a copy
W=/tmp/seeds/cw; rm -rf $W; cp -a /repo $W; rm -rf $W/target
cd /tmp/vcopy
for d in ${@:-$(ls /verif/seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C $W checkout -q -- . ; git -C $W apply /verif/seeded/$d/patch.diff || { echo "$d APPLY"; continue; }
  s=$(date +%s)
  M68SA_REPO=$W M68SA_EVID=/tmp/seeds/ev bash run.sh $p > /tmp/seeds/log.$d 2>&1; rc=$?
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/seeds/log.$d) $(grep -m1 '^VIOLATION' /tmp/seeds/log.$d)"
done
