#!/bin/bash
# run.sh PROPERTY quick|thorough : one check, with the interpreter of the repository
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PYX="${PY:-}"; [ -x "$PYX" ] || PYX=/opt/venv/bin/python; [ -x "$PYX" ] || PYX=python3
cd "$(dirname "$0")" && exec "$PYX" harness/check.py "$@"
