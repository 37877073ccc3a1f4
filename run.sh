#!/bin/bash
# usage: run.sh Cxx [quick|thorough]          run the check of one property
#        run.sh Cxx --replay FILE             re-execute one recorded execution
# Fresh state for every run: no .pyc, numba or matplotlib cache is shared with another run.
export HOME="${HOME:-/root}" LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
unset PYTHONPATH PYTHONWARNINGS
HERE=$(cd "$(dirname "$0")" && pwd) || exit 1
export VERIF_HOME="$HERE"
WORK=$(mktemp -d) || exit 1
trap 'rm -rf "$WORK"' EXIT
export VERIF_WORK="$WORK"
export PYTHONPYCACHEPREFIX=$WORK/pyc NUMBA_CACHE_DIR=$WORK/numba MPLCONFIGDIR=$WORK/mpl
# development only: reuse a compile cache (never set by the registered commands)
if [ -n "$VERIF_DEV_CACHE" ]; then export PYTHONPYCACHEPREFIX=$VERIF_DEV_CACHE/pyc NUMBA_CACHE_DIR=$VERIF_DEV_CACHE/numba; fi
mkdir -p "$MPLCONFIGDIR" "$NUMBA_CACHE_DIR" "$WORK/cwd" "$WORK/tmp"
export TMPDIR=$WORK/tmp
PY=/opt/venv/bin/python
cd "$WORK/cwd" || exit 1
"$PY" -W ignore "$HERE/mc/driver.py" "$@"
