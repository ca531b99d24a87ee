#!/bin/bash
# Nothing to build: verifies that interpreter, database servers and the code under test are usable.
cd "$(dirname "$0")" || exit 2
exec env PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -m dst.engine --setup
