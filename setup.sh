#!/bin/bash
# Nothing to build (pure Python); fail early if the interpreter or the
# libraries the checks use are missing.
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -W ignore -c 'import lib.boot, hypothesis, hiku.engine'
