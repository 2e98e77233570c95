#!/bin/bash
# hunt.sh SEED-ID.. : runs the check of each planted bug with the bug applied to /repo
cd /verif
for id in "$@"; do
  prop=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 -m vf.check_${prop,,} quick > /tmp/hunt.$id.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id ($prop): rc=$rc $(grep -A1 -m1 VIOLATION /tmp/hunt.$id.out | tail -1 | cut -c1-220)"
done
