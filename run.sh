#!/bin/bash
# usage: run.sh <property id> quick|thorough [job filter]   |   run.sh <property id> replay <file>
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=/verif
export PYTHONPATH="$(pwd)"
exec /opt/venv/bin/python -m symx.run "$@"
