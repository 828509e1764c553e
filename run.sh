#!/bin/bash
# usage: run.sh PROPERTY [--tier T] [--only CASE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B vm/main.py "$@"
