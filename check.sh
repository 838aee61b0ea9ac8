#!/bin/bash
# check.sh PID [quick|thorough]   or   check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
exec "$PY" vlib/main.py "$@"
