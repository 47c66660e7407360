#!/bin/bash
# run_check.sh ID quick|thorough          run the check of one property against /repo's working tree
# run_check.sh ID --replay FILE           re-run a failing case
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
scratch=$(mktemp -d "${TMPDIR:-/tmp}/vt.XXXXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
REPO=${VERIF_REPO:-/repo}
/usr/bin/python3 vt/translate.py "$REPO/tracer" "$scratch/tree/tracer"
rc=$?
if [ $rc -ne 0 ]; then echo "translation of $REPO/tracer failed ($rc)" >&2; exit 2; fi
export VERIF_TREE="$scratch/tree"
/opt/venvpp/bin/python vt/main.py "$@"
