#!/bin/bash
# Nothing is built ahead of the checks (each one imports / compiles /repo's current tree itself); this checks the tools.
set -e
cd "$(dirname "$0")"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -B -c 'import ctypes, asyncio, multiprocessing, sys; sys.exit(sys.version_info < (3, 8))'
gcc --version >/dev/null
mkdir -p evidence replays
