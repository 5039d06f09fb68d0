#!/bin/bash
# check.sh PID TIER [extra args]: run one property's check on /repo's tree.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg
pid="$1"; tier="$2"; shift 2
exec /opt/venv/bin/python check.py "$pid" --tier "$tier" "$@"
