#!/bin/bash
# usage: check.sh C01 [args]   runs one property's check against /repo
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -W ignore run.py "$@"
