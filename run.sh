#!/bin/bash
# usage: run.sh <PROPERTY> [--replay FILE] [--facet NAME]
# Runs the check of one property against the code in ${VERIF_REPO:-/repo}.
# A fresh HOME per run: the package keeps numba's compile cache under ~/.pyebsdindex and numba
# only invalidates it by the file holding the jitted function, so a warm cache could hide a change.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f "$here/.deps/.ok" ] || bash "$here/setup.sh" >&2 || exit 3
work=$(mktemp -d /tmp/verif.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/home" "$work/tmp"
export HOME="$work/home" TMPDIR="$work/tmp" RAY_TMPDIR="$work/tmp" VERIF_WORK="$work"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$here:$VERIF_REPO:$here/.deps"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg RAY_USAGE_STATS_ENABLED=0
export PYTHONWARNINGS=ignore NUMBA_NUM_THREADS="${NUMBA_NUM_THREADS:-4}" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset NUMBA_CACHE_DIR
cd "$work" || exit 3
/opt/venv/bin/python -m pbt.main "$@"
