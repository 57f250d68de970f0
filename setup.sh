#!/bin/bash
# nothing to build: the verifier is Python source; check that its back ends are there
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "from dv import realload; realload.setup(); import z3; print('z3', z3.get_version_string())" || exit 1
which z3-new cvc5 || exit 1
mkdir -p evidence replays
