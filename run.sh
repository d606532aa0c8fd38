#!/bin/bash
# run.sh <property> [quick|thorough]: decide one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1
exec /opt/venv/bin/python check.py "$1" "${2:-${VERIF_TIER:-quick}}"
