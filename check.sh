#!/bin/bash
# check.sh <PROPERTY> [args of harness/run.py]
cd "$(dirname "$0")" || exit 2
HERE=$(pwd)
REPO=${VERIF_REPO:-/repo}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen TZ=UTC
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1
export PATH_TO_POSYDON=$REPO/ PATH_TO_POSYDON_DATA=$REPO/posydon/unit_tests/_data/ MESA_DIR=$REPO/
export PYTHONPATH=$REPO HDF5_USE_FILE_LOCKING=FALSE
PY=/opt/venv/bin/python
exec "$PY" "$HERE/harness/run.py" "$@"
