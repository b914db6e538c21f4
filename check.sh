#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" PYTHONNOUSERSITE=1 LC_ALL=C.UTF-8 LANG=C.UTF-8
export PYTHONPYCACHEPREFIX=/opt/vp/no-pycache
export PYTHONWARNINGS=ignore
unset PYTHONPATH
exec /opt/venv/bin/python -m mc.run "$@"
