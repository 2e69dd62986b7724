#!/bin/bash
# run.sh <property> [quick|thorough] [options]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLCONFIGDIR="$PWD/evidence/.mpl" PYTHONWARNINGS=ignore
mkdir -p evidence/.mpl
exec /opt/venv/bin/python symex/run.py "$@"
