#!/bin/bash
# nothing to build: checks that the interpreter, z3 and the code import
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "."); import symx, z3; print("z3", z3.get_version_string())'
