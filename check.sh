#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [--replay file] [...]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export TQDM_DISABLE=1
[ -d .deps/hypothesis ] || bash setup.sh >/dev/null || { echo "setup failed" >&2; exit 2; }
SCRATCH=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
export VERIF_SCRATCH=$SCRATCH MPLCONFIGDIR=$SCRATCH/mpl HOME=$SCRATCH
mkdir -p "$SCRATCH/mpl"
# keep matplotlib from rebuilding its font cache on every run, when one is available
cp /opt/vp/mplconfig/fontlist*.json "$SCRATCH/mpl/" 2>/dev/null
PYTHONPATH="$PWD/.deps:$PWD:${VERIF_REPO:-/repo}" /opt/venv/bin/python -W ignore -m harness.run "$@"
rc=$?
find "$SCRATCH" -depth -delete 2>/dev/null
exit $rc
