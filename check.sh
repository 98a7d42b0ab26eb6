#!/bin/bash
# check.sh PROPERTY [quick|thorough] : decide one property against /repo's current working tree.
# check.sh replay FILE | selfcheck PROPERTY... : replay a minimised trace / prove determinism.
cd "$(dirname "$0")" || exit 2
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
export VERIF_SEED="${VERIF_SEED:-1}"
scratch=$(mktemp -d /tmp/verif-dst.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR="$scratch/mpl" PYTHONPYCACHEPREFIX="$scratch/pyc"   # never reuse stale byte code of the tree
PY=/opt/venv/bin/python
case "$1" in
  replay|selfcheck|one) "$PY" -W ignore -m dst.runner "$@" ;;
  *) p=$1; t=${2:-${VERIF_TIER:-quick}}; shift; shift
     "$PY" -W ignore -m dst.runner check "$p" --tier "$t" "$@" ;;
esac
exit $?
