#!/bin/bash
# replay.sh FILE: runs a saved failing case again
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m pxv.replay "$f"
