#!/bin/bash
# sweep.sh [seed...]: applies each planted bug to /repo, runs its property's quick check, undoes it. Dev tool.
cd /verif || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
[ $# -gt 0 ] && L="$*" || L=$(ls seeded)
for s in $L; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  t=$SECONDS; out=$(VERIF_SEED=1 VERIF_TIER=quick ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $((SECONDS-t))s $(grep -m1 "^VIOLATION property=$p" <<<"$out")"
  [ $rc = 1 ] || tail -5 <<<"$out"
done
