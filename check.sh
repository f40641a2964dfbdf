#!/bin/bash
# usage: check.sh PROPERTY [args]   runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC PROJ_NETWORK=OFF LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
# never trust stale bytecode beside the sources
export PYTHONPYCACHEPREFIX="$(mktemp -d)"
/opt/venv/bin/python -m vt "$@"
rc=$?
rm -rf "$PYTHONPYCACHEPREFIX"
exit $rc
