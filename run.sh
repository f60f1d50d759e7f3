#!/bin/bash
# Runs one property's check against /repo's working tree: run.sh <id> | replay <file>
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:$PATH
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec python check.py "$@"
