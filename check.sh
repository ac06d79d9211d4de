#!/bin/bash
# check.sh <property> quick|thorough  |  check.sh replay <file>
cd "$(dirname "$0")" || exit 2
PY=/opt/pvenv/bin/python
export PYTHONHASHSEED=${VERIF_HASHSEED:-0} PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=
exec "$PY" -W ignore -m sim.main "$@"
