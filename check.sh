#!/bin/bash
# bash check.sh PROPERTY [args]: decide one property on /repo's current tree
cd "$(dirname "$(realpath "$0")")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore sym/run.py "$@"
