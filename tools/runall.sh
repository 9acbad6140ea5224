#!/bin/bash
# all checks: tools/runall.sh [ID...]
cd "$(dirname "$0")/.."
for p in ${@:-$(ls checks | sed 's/[.]py$//' | tr a-z A-Z)}; do
    s=$(date +%s); out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} bash run.sh $p 2>&1); rc=$?
    echo "$p rc=$rc $(( $(date +%s)-s ))s"
    [ $rc -eq 0 ] || echo "$out" | tail -15
done
