#!/bin/bash
# check.sh PROPERTY TIER : run one check against /repo's working tree (pure Python, imported from source).
cd "$(dirname "$0")" || exit 4
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD:${VF_REPO:-/repo}" PYTHONUNBUFFERED=1 PYTHONWARNINGS=ignore
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${2:-quick}"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m vf.run "$1" --tier "$VERIF_TIER"
