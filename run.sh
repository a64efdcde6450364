#!/bin/bash
# ./run.sh <property id>: run the check of one property against /repo's current working tree
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$here"
exec $PY -m checks.run "$@"
