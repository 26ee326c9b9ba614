#!/bin/bash
# usage: run.sh <ID> [--replay FILE | --case 'EXPR']
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
export PYTHONPATH="$here:${KDMON_REPO:-/repo}"
exec /opt/venv/bin/python -m kdmon "$@"
