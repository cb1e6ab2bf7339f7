#!/bin/bash
# usage: run.sh <property> [quick|thorough]      run one check against /repo's working tree
#        run.sh replay <file>                    run one recorded case again
#        run.sh list                             list properties and facets
# The code under test is imported from /repo/src (or $FSV_REPO/src), never from a copy or from compiled files.
cd "$(dirname "$0")" || exit 2
export FSV_REPO="${FSV_REPO:-/repo}"
export PYTHONPATH="$FSV_REPO/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export FSV_SCRATCH="$(mktemp -d)" || exit 2
trap 'rm -rf "$FSV_SCRATCH"' EXIT
export MPLCONFIGDIR="$FSV_SCRATCH/mpl" PYTHONPYCACHEPREFIX="$FSV_SCRATCH/pyc"
# warm matplotlib font cache is copied when present, building it takes seconds
mkdir -p "$MPLCONFIGDIR"
/opt/venv/bin/python -m fsv.core "$@"
exit $?
