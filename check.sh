#!/bin/sh
# usage: ./check.sh C01            run the check of property C01
#        ./check.sh C01 --replay evidence/replay/C01-....json
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough).
# HROSIM_REPO names another copy of the repository (only used by tools/mutate.py).
# Everything the run writes except the evidence goes to one scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
scratch=$(mktemp -d /tmp/hrosim-XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' HUP INT TERM
gcc -O2 -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -shared -fPIC \
    -o "$scratch/iofault.so" "$here/sim/iofault.c" -ldl || {
    echo "cannot build the disk shim" >&2; exit 2; }
fixed=
if setarch -R true 2>/dev/null; then fixed="setarch -R"; fi
LD_PRELOAD="$scratch/iofault.so" HROSIM_SHIM="$scratch/iofault.so" \
HROSIM_SCRATCH="$scratch" PYTHONPATH="${HROSIM_REPO:-/repo}:$here" PYTHONHASHSEED="${PYTHONHASHSEED:-0}" \
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" HOME="$scratch" \
OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 TZ=UTC PYTHONWARNINGS=ignore \
    $fixed /opt/venv/bin/python -m sim.runner "$@"
rc=$?
exit $rc
