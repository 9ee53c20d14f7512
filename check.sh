#!/bin/bash
# ./check.sh <property> [--tier quick|thorough] [--seed N] | ./check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m pv.run "$@"
