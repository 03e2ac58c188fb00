#!/bin/bash
# bash run.sh <property id> [options]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8}
unset PYTHONPATH
exec /opt/venv/bin/python -W ignore -c "
import sys
sys.path.insert(0, '.'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from pv.runner import main
sys.exit(main(sys.argv[1:]))" "$@"
