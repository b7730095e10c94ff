#!/bin/bash
# check.sh <property> [--replay file]: runs the check of one property against /repo's working tree
here="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$here/build/mpl"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$here/build/mpl"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
cd "$here" && exec /opt/venv/bin/python -m vlib.runner "$@"
