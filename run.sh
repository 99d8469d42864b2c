#!/bin/bash
# run.sh <property> [quick|thorough]   |   run.sh replay <file>
# Runs a check against the working tree in ${QOSY_ROOT:-/repo}.
here="$(cd "$(dirname "$0")" && pwd)"
export QOSY_ROOT="${QOSY_ROOT:-/repo}"
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin LC_ALL=C.UTF-8
export PYTHONPATH="$here:$QOSY_ROOT" PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1
# never read bytecode lying beside the sources
cache="$(mktemp -d "${TMPDIR:-/tmp}/mcpyc.XXXXXX")"
export PYTHONPYCACHEPREFIX="$cache"
export MPLCONFIGDIR="$cache"
cd "$here" || exit 2
/opt/venv/bin/python -m mc "$@"
rc=$?
/bin/rm -r -f -- "$cache"
exit $rc
