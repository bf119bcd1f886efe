#!/bin/bash
# runseeds.sh [ID ...]: apply each planted bug to /repo, run its property's quick check, undo; print caught/missed
cd /verif
for d in ${@:-$(ls seeded)}; do
  [ -f seeded/$d/patch.diff ] || continue
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  t0=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py run $p > /tmp/seed-$d.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -c '^VIOLATION property='$p /tmp/seed-$d.log) $(grep -o '^clause [A-Z0-9a-z.-]*' /tmp/seed-$d.log | tr '\n' ' ')"
done
