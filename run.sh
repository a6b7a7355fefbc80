#!/bin/sh
# run.sh check C04 [--tier quick|thorough] | replay FILE | digests C04 | show C04 IDX
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 TZ=UTC LC_ALL=C.UTF-8
exec "$PY" -s -B -m sim.main "$@"
