#!/bin/bash
# run.sh <property id>: one check; tier and seed come from VERIF_TIER / VERIF_SEED
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B lib/run.py "$@"
