#!/bin/bash
# bash replay.sh replays/<file>.py: re-run one recorded counterexample, without the explorer
set -u
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0 LC_ALL=C.UTF-8
f=$(realpath "$1"); cd "$(dirname "$0")"
exec /opt/venv/bin/python -B -W ignore tools/run.py --replay "$f"
