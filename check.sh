#!/bin/bash
# check.sh <PROPERTY> <quick|thorough> [extra run.py args]
cd "$(dirname "$0")" || exit 2
p=$1; t=$2; shift 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore pbt/run.py "$p" --tier "$t" "$@"
