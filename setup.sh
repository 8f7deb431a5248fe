#!/bin/bash
# Nothing to build: checks that the interpreter and the solver are there.
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(pwd)" /opt/venv/bin/python -c "from symx import core; print('z3', core.z3.get_version_string())"
