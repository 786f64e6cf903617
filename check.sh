#!/bin/bash
# usage: ./check.sh <property id>
cd "$(dirname "$0")" || exit 2
ulimit -s unlimited 2>/dev/null
export PYTHONHASHSEED=0
exec python3 -B sa/run.py "$1"
