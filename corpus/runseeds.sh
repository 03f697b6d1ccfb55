#!/bin/bash
# usage: runseeds.sh [NAME...]   Runs the property's check on a scratch copy with each seeded bug applied.
cd /verif; W=/tmp/runseedwt; mkdir -p /tmp/runseedv; cp -a /verif/refs /verif/known_findings.txt /verif/properties.jsonl /tmp/runseedv/ 2>/dev/null
mkdir -p /tmp/runseedv/evidence
rm -rf /tmp/runseedwt; cp -a /repo $W
for n in ${@:-$(ls seeded)}; do
  git -C $W checkout -q -- . && git -C $W apply /verif/seeded/$n/patch.diff || { echo "$n does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
  o=$(timeout 300 /verif/bin/xv check $p $W /tmp/runseedv 2>&1); rc=$?
  echo "$n $p rc=$rc $(echo "$o" | grep -c '^VIOLATION') $(echo "$o" | grep -m1 '^VIOLATION' | cut -c1-${L:-120})"
done
rm -rf /tmp/runseedwt /tmp/runseedv
