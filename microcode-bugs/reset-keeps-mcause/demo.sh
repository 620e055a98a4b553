#!/bin/sh
# cwd: the repository; exit 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src:$D" exec $PY -B "$D/demo.py"
