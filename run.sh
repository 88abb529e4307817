#!/bin/bash
# usage: run.sh <property id> [--replay file]
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
exec /opt/venv/bin/python -m mc.main "$@"
