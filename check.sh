#!/bin/bash
# check.sh PROPERTY [--thorough] | --replay FILE
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -m pyvc.runner "$@"
