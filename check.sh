#!/bin/bash
# usage: check.sh C01 [--tier quick|thorough] [--replay FILE]
# Runs one property's check against the current working tree of /repo.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export LANG=${LANG:-C.UTF-8} TZ=UTC
unset PYTHONPATH
cd "$here" || exit 2
exec /opt/venv/bin/python -X faulthandler "$here/run_check.py" "$@"
