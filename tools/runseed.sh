#!/bin/bash
# runs a property's check against planted bugs: tools/runseed.sh [ID...]
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  ./check.sh $p > /tmp/rs_$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -c "^VIOLATION property=$p" /tmp/rs_$id.log) $(grep -m1 '  .*goal "' /tmp/rs_$id.log | cut -c1-120)"
done
