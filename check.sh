#!/bin/bash
# check.sh <property> : decide one property on /repo's current working tree
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONHASHSEED=0
exec /opt/venv/bin/python run.py "$@"
