#!/bin/sh
# check.sh <property>: runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPATH
exec /opt/venv/bin/python harness/run.py "$1"
