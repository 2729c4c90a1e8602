#!/bin/bash
# run.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -m symx.run "$@"
