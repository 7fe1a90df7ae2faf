#!/bin/bash
# usage: bash check.sh <property id>     (VERIF_SEED, VERIF_TIER from the environment)
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PIP_NO_INDEX=1
tmp=$(mktemp -d /tmp/verif_XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/mpl" "$tmp/s"
export MPLCONFIGDIR="$tmp/mpl" VERIF_SCRATCH="$tmp/s" TMPDIR="$tmp/s" HOME="$tmp"
cd "$here" || exit 2
# run from the scratch folder: nothing is ever written next to the sources
/opt/venv/bin/python -B "$here/harness/run.py" "$@"
exit $?
