#!/bin/bash
# nothing to build: the engine is Python and reads /repo's source on every run
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python -c "import symx.z3imp as z; print('z3', z.z3.get_version_string())"
