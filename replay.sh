#!/bin/bash
# replay.sh <replay file>: exit 1 and a VIOLATION line if the violation shows again
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent-wgmc
exec "$PY" -m mc.replay "$@"
