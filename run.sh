#!/bin/bash
# run.sh <property> [--replay file] ... : one check, against the working tree of /repo
cd "$(dirname "$(readlink -f "$0")")" || exit 2
PY=${VERIF_PYTHON:-/opt/venv/bin/python}
[ -x "$PY" ] || PY=python3
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=${PYTHONHASHSEED:-0}
exec "$PY" -m mon.main "$@"
