#!/bin/sh
# Nothing to build: check that the interpreter, the code and the solver load.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VERIF_REPO:-/repo}/src:$here" HOME="${HOME:-/root}" \
  /opt/venv/bin/python -c 'from symx.z3load import z3; import _zkapauthorizer.model; print("z3", z3.get_version_string())'
