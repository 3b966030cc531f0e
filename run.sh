#!/bin/bash
# run.sh <property> [--task N]   (tier and seed come from VERIF_TIER / VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -X pycache_prefix=/nonexistent/pyc check.py "$@"
