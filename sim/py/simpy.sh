#!/bin/bash
# Starts the Python simulator: fixed addresses, no hash randomisation, interposer preloaded.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
B=${WFSIM_PYBUILD:-$HERE/../../build/py}
B=$(cd "$B" && pwd)
REPO=${WFSIM_REPO:-/repo}
. /opt/vp/env.sh
exec setarch -R env -u PYTHONSTARTUP LD_PRELOAD="$B/libsimshim.so" PYTHONMALLOC=malloc PYTHONHASHSEED="${WFSIM_HASHSEED:-0}" PYTHONNOUSERSITE=1 \
  PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 \
  PYTHONPATH="$HERE/stubs:$B/mod:$REPO/components/python" "$VENV/bin/python" "$HERE/simpy.py" "$@"
