#!/bin/bash
# Checks that the interpreter and compiler are there and pre-builds the extension flavours
# (every check rebuilds what it needs itself; this only warms the cache and fails early).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo/src"
exec /opt/venv/bin/python -m vf.build plain sanitize
