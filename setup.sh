#!/bin/bash
# Pre-builds the DD engine binding (each check builds it itself when it is missing or stale).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "
from pbt import env
env.setup(fresh_bindings=False)
import hypothesis
print('hypothesis', hypothesis.__version__, env.build_bindings())"
