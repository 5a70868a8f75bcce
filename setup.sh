#!/bin/bash
# nothing to compile: make sure the harness and the code under test can be imported
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PROJ_NETWORK=OFF
mkdir -p evidence
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '.')
from harness import env
import hypothesis, resippy
print('ready: hypothesis', hypothesis.__version__)"
