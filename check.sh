#!/bin/bash
# usage: check.sh <property id> [quick|thorough]     or     check.sh <property id> replay <file>
# Model checks one property of the code in /repo (or $VERIF_REPO), working tree as it is.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -m mc.run "$@"
