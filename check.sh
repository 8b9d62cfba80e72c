#!/bin/bash
# usage: check.sh <check module> [--tier quick|thorough] [--only harness]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
unset PYTHONPATH
exec /opt/venv/bin/python -c "
import sys
from symx import env
from symx import harness
sys.exit(harness.main(sys.argv[1], sys.argv[2:]))
" "$@"
