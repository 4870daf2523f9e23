#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [--replay FILE] [--cases N] [--case I]
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; shift
case "$1" in quick|thorough) export VERIF_TIER="$1"; shift;; esac
export PATH=/opt/venv/bin:$PATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONWARNINGS=ignore
export RVM_REPO="${RVM_REPO:-/repo}"
unset PYTHONPATH
cd "$here" && exec /opt/venv/bin/python -m rvm.run "$prop" "$@"
