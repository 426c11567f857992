#!/bin/bash
# run.sh PROPERTY [options]   - see kcmon/main.py
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
py="${KCMON_PYTHON:-/opt/venv/bin/python}"
exec "$py" -B "$here/kcmon/main.py" "$@"
