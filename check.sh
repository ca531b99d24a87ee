#!/bin/bash
# check.sh <property>: decides one property (VERIF_SEED, VERIF_TIER in the environment).
cd "$(dirname "$0")" || exit 2
exec env PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -m dst.engine "$@"
