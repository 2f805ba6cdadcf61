#!/bin/bash
# run.sh <PROPERTY> [--replay FILE]   (VERIF_TIER=quick|thorough, VERIF_SEED=int)
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
scratch="$(mktemp -d /tmp/wwmc.XXXXXXXX)" || exit 2
trap 'rm -rf "$scratch"' EXIT
export WWMC_SCRATCH="$scratch"
export PYTHONPATH="$here" PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg http_proxy=http://127.0.0.1:9 https_proxy=http://127.0.0.1:9
export NUMBA_CACHE_DIR="$scratch/numba" NUMBA_OPT="${WWMC_OPT:-0}" NUMBA_BOUNDSCHECK=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export WILDWOOD_DATA="$scratch/wildwood_data" TMPDIR="$scratch"
/opt/venv/bin/python -m wwmc.main "$@"
rc=$?
exit $rc
