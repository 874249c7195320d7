#!/bin/bash
# Nothing is prebuilt: every check compiles what it needs from /repo's working tree into a scratch directory.
. /opt/vp/env.sh
cd /verif || exit 1
for t in gcc g++ clang; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
PYTHONPATH=/repo:/verif /opt/venv/bin/python -c "import emlearn, vlib.core, vlib.cc" || exit 1
echo setup ok
