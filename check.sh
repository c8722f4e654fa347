#!/bin/sh
# ./check.sh CXX [quick|thorough]   or   ./check.sh CXX --replay FILE
cd "$(dirname "$0")" || exit 2
REPO=${VERIF_REPO:-/repo}
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0
[ -d /opt/mplconfig ] && export MPLCONFIGDIR=/opt/mplconfig
export PYTHONPATH="$PWD"
case "$1" in
  C15|C16|C17|C36) PY=python3-vt ;;      # need the real scipy
  *) PY=/opt/venv/bin/python ;;
esac
if [ "$2" = "--replay" ]; then exec $PY -m mc.replay "$3"; fi
[ -n "$2" ] && export VERIF_TIER="$2"
exec $PY -m mc.run "$1"
