#!/bin/bash
# exit 0 on the unchanged tree, 1 with the patch. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
[ -d /opt/mplconfig ] && export MPLCONFIGDIR=/opt/mplconfig
export PYTHONPATH="$PWD:$here/stubs"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
