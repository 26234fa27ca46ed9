#!/bin/bash
# bash check.sh <property> [quick|thorough]: decide one property on /repo's working tree
set -u
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0 LC_ALL=C.UTF-8
export PYTHONWARNINGS=ignore
unset PYTHONPATH
exec /opt/venv/bin/python -B -W ignore tools/run.py "$@"
