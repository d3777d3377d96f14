#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough] [--replay FILE]
# Runs one check against the working tree of /repo (or $ORANSSI_REPO, for experiments on a copy).
here="$(cd "$(dirname "$0")" && pwd)"
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
prop="$1"; shift
if [ -n "$1" ] && [ "${1#--}" = "$1" ]; then tier="$1"; shift; else tier="${VERIF_TIER:-quick}"; fi
exec /opt/venv/bin/python -W ignore -u "$here/mc/main.py" "$prop" "$tier" "$@"
