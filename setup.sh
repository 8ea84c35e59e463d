#!/bin/bash
# nothing to build: the verifier is pure Python and reads /repo/src on every run; check that it starts
cd "$(dirname "$0")"
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import pyvc.runner, pyvc.solver, z3; pyvc.runner.load_contracts(); print("z3", z3.get_version_string())'
