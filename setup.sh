#!/bin/bash
# Compiles the evaluation of module Rat and checks that the tools answer.  Offline.
set -e
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PYX="${PY:-}"; [ -x "$PYX" ] || PYX=/opt/venv/bin/python; [ -x "$PYX" ] || PYX=python3
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 "$PYX" -c "import sys; sys.path.insert(0, 'harness'); import tlc; print(tlc.classes())"
