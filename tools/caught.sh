#!/bin/bash
# caught.sh [IDS...]: runs the check of each planted bug's property against a patched clone; prints whether it reports it
for i in ${@:-$(ls /verif/seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  rm -rf /tmp/caught_repo; git clone -q /repo /tmp/caught_repo; git -C /tmp/caught_repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  rm -rf /tmp/caught_v; mkdir /tmp/caught_v; cp -r /verif/run.py /verif/checks /verif/common /verif/known_findings.json /tmp/caught_v/; mkdir /tmp/caught_v/evidence
  s=$(date +%s); out=$(cd /tmp/caught_v && MC_REPO=/tmp/caught_repo python3 run.py $p --tier quick 2>&1); rc=$?
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION)"
done
rm -rf /tmp/caught_repo /tmp/caught_v
