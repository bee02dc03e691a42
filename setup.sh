#!/bin/bash
# Nothing to build: checks that the interpreter, e3x and z3 are usable.
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
/opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, '.')
from sx import env
env.setup()
from sx import solve
import z3
print('z3', z3.get_version_string())
PY
