#!/bin/sh
# nothing to build: the harness is Python source, the code under test is imported from /repo's working tree
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" -s -B -c 'import sim.core, sim.main; print("ok")'
