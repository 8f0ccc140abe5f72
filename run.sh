#!/bin/bash
# run.sh PROPERTY [quick|thorough] [--replay FILE]
# Runs one property's monitor against the pdr in /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg PIP_NO_INDEX=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH=/repo:$here/harness LC_ALL=C.UTF-8
exec /opt/venv/bin/python -B "$here/harness/run.py" "$@"
