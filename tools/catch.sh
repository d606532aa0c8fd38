#!/bin/bash
# catch.sh [id...]: run each planted bug's own check against it
cd /verif
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  bash run.sh $p quick > /tmp/catch.$b 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$b $p rc=$rc $(grep -h VIOLATION /tmp/catch.$b) | $(grep -hE '^failing input|^obligation' /tmp/catch.$b | head -1 | cut -c1-170)"
done
