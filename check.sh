#!/bin/bash
# check.sh <property> <quick|thorough> | check.sh <property> --replay <file>
# Runs one property-based check against the working tree in /repo (or $VT_REPO).
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPATH PYTHONHOME
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_plm=isolated OMPI_MCA_mpi_yield_when_idle=1
export OMPI_MCA_hwloc_base_binding_policy=none
export HDF5_USE_FILE_LOCKING=FALSE
cd "$here" || exit 2
exec /opt/venv/bin/python -m vt.main "$@"
