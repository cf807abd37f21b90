#!/bin/bash
# run.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent-wgmc
export MC_PYTHON="$PY"
exec "$PY" -m mc.run "$@"
