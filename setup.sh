#!/bin/bash
# nothing to compile: verify that the interpreter, the solvers and the real package can be loaded
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys; sys.path[:0]=['.','/repo']
import pyvc, z3, gemd; from pyvc import unit; print('ok', z3.get_version_string())"
