#!/bin/bash
# check.sh PROPERTY [options]: run one property's simulation against /repo's working tree.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${AVSIM_REPO:-/repo}"
export PYTHONHASHSEED="${AVSIM_HASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export MPLBACKEND=Agg OPENMDAO_REPORTS=0 OPENMDAO_USE_MPI=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
unset TESTFLO_RUNNING OPENMDAO_WORKDIR
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}" TZ=UTC
export AVSIM_REPO="$REPO"
cd "$HERE" || exit 2
export PYTHONPATH="$HERE:$REPO"
exec /opt/venv/bin/python -u -m sim.engine "$@"
