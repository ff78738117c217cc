#!/bin/bash
# runseeds.sh [ID...]: runs the quick check of each planted bug's property on a scratch copy with the bug.
cd /verif/seeded
for id in ${@:-$(ls)}; do
  wt=/tmp/chk_$id
  rm -rf "$wt"; cp -a /repo "$wt"; (cd "$wt" && git checkout -q -- . && git apply /verif/seeded/$id/patch.diff) || { echo "$id does not apply"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  t=$(date +%s)
  VERIF_REPO=$wt VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 /verif/harness/check.py $prop > /tmp/chk_$id.log 2>&1
  rc=$?
  echo "$id $prop rc=$rc $(( $(date +%s) - t ))s $(grep -m1 -E '^  ' /tmp/chk_$id.log | cut -c1-150)"
  rm -rf "$wt"
done
