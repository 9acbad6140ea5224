#!/bin/bash
# run.sh PROPERTY [--replay FILE]: run the check of one property against /repo
cd "$(dirname "$0")" || exit 2
id="$1"; shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONHASHSEED="${VERIF_SEED:-1}" LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONPATH=/repo
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
VERIF_SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/verif-$id.XXXXXX")" || exit 2
export VERIF_SCRATCH
# never use stale byte code of another tree
export PYTHONPYCACHEPREFIX="$VERIF_SCRATCH/pyc"
trap 'chmod -R u+rwX "$VERIF_SCRATCH" 2>/dev/null; rm -rf "$VERIF_SCRATCH"' EXIT
/opt/venv/bin/python -X utf8 "checks/${id,,}.py" "$@"
rc=$?
exit $rc
