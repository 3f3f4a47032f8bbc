#!/bin/bash
# Nothing to compile: check the interpreter and that the library imports from /repo.
cd "$(dirname "$0")" || exit 4
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:${VF_REPO:-/repo}" "$PY" -W ignore -c "import vf.lib; print('vf ready')"
