#!/bin/bash
# Nothing is compiled: check that the interpreter and the harness load.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:$here/harness MPLBACKEND=Agg \
  /opt/venv/bin/python -B -c "import lib, enc, pds3w, numpy, pandas, pdr; print('ok', pdr.__version__)"
