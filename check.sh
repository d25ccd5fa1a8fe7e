#!/bin/bash
# check.sh PROPERTY [options]: run the check of one property
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
export OPENBLAS_NUM_THREADS=1 PYTHONUTF8=1 HDF5_USE_FILE_LOCKING=FALSE
exec python3-vt -m sx.run "$@"
