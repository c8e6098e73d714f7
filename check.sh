#!/bin/bash
# usage: check.sh <property id> [--replay FILE]     (tier and seed come from VERIF_TIER / VERIF_SEED)
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" LANG=C.UTF-8
exec "$PY" -B -m mc "$@"
