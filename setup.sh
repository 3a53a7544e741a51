#!/bin/sh
# nothing to compile: the framework is Python and explores /repo in place
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PY=/opt/venv/bin/python
PYTHONDONTWRITEBYTECODE=1 "$PY" -c 'import sys; sys.path.insert(0, "."); sys.path.insert(0, "/repo"); import warcio, mc.core, mc.ref, mc.streams'
