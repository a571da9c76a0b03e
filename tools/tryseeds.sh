#!/bin/bash
# tools/tryseeds.sh [id…]: applies each planted bug in turn and runs its property's check.
cd /verif
for s in ${@:-$(ls seeded)}; do
  git -C /repo apply /verif/seeded/$s/patch.diff || continue
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  t0=$(date +%s); ./run.sh $p > /tmp/ts.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$s rc=$rc $(($(date +%s)-t0))s $(tail -1 /tmp/ts.out | cut -c1-200)"
done
