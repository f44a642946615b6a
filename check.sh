#!/bin/bash
# usage: check.sh <property> <tier>
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python symx/run.py "$1" --tier "$2" "${@:3}"
