#!/bin/bash
# sanity of the tool chain only; nothing to build
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
/opt/venv/bin/python -W ignore -c "
import sys
sys.path.insert(0, '.'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy, pv.vm
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)"
