#!/bin/bash
# Run the check of the property each seeded change breaks against that change.
#   tools/trybugs.sh [ID...]     (needs a clean /repo; restores it)
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for d in ${@:-$(ls seeded)}; do
    prop=$(python3 -c "import json; print (json.load (open ('seeded/$d/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 bash run.sh "$prop" 2>&1); rc=$?
    git -C /repo checkout -q -- .
    v=$(echo "$out" | grep -m1 "VIOLATION property=$prop")
    if [ $rc -eq 1 ] && [ -n "$v" ]; then echo "caught $d $prop"; else echo "MISSED $d $prop rc=$rc"; echo "$out" | tail -3; fi
done
