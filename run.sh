#!/bin/bash
# usage: run.sh <property id>     (VERIF_SEED, VERIF_TIER from the environment)
. /opt/vp/env.sh
export PYTHONPATH=/repo:/verif OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONWARNINGS=ignore
cd /verif || exit 2
f=$(ls /verif/checks/$(echo "$1" | tr 'A-Z' 'a-z')_*.py) || exit 2
exec /opt/venv/bin/python -u "$f"
