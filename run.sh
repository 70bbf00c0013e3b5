#!/bin/bash
# run.sh ID [quick|thorough] [--replay FILE]   : decide one property against /repo's working tree.
# Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=ID replay=PATH": broken.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
HERE=$PWD
export HOME=${HOME:-/root} LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1 NUMBA_NUM_THREADS=1
export MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen PIP_NO_INDEX=1
export HTTP_PROXY=http://127.0.0.1:9 HTTPS_PROXY=http://127.0.0.1:9
unset PYTHONHOME
SCRATCH=$(mktemp -d /tmp/vpmc.XXXXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
mkdir -p "$SCRATCH/cache" "$SCRATCH/data" "$SCRATCH/tmp" "$SCRATCH/pyc" "$SCRATCH/mpl"
export VPMC_SCRATCH=$SCRATCH XDG_CACHE_HOME=$SCRATCH/cache DFS_DATA_DIR=$SCRATCH/data \
       TMPDIR=$SCRATCH/tmp PYTHONPYCACHEPREFIX=$SCRATCH/pyc MPLCONFIGDIR=$SCRATCH/mpl \
       NUMBA_CACHE_DIR=$SCRATCH/numba
export VPMC_REPO=${VPMC_REPO:-/repo}
export PYTHONPATH=$VPMC_REPO:$HERE
/opt/venv/bin/python -W ignore -m mc.main "$@"
