#!/bin/bash
# check.sh <PROPERTY> [--quick|--thorough] [-v] [--only=SUB] [--scale=F]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PROJ_NETWORK=OFF
exec /opt/venv/bin/python -W ignore harness/run.py "$@"
