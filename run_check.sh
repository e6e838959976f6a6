#!/bin/bash
# run_check.sh <property> [options]   (see vlib/runner.py)
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONPATH="$PWD:${VERIF_REPO:-/repo}"
exec /opt/venv/bin/python -W ignore -m vlib.runner "$@"
