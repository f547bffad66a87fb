#!/bin/bash
# bash check.sh <property id>   (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")" || exit 2
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python mc/run.py "$@"
