#!/bin/bash
# Nothing to build: the checks encode /repo's current source on every run. This verifies that the tools are there.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
/opt/veriftools/pyvenv/bin/python -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p evidence/replays
