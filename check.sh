#!/bin/bash
# check.sh <property> quick|thorough      check.sh <property> replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python -m pbt.run "$@"
