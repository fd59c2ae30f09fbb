#!/bin/sh
# Nothing has to be installed: every check compiles the disk shim into its own scratch
# directory. This only shows early that the pieces work.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/hrosim-XXXXXX) || exit 1
trap 'rm -rf "$t"' EXIT
gcc -O2 -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -shared -fPIC -o "$t/iofault.so" "$here/sim/iofault.c" -ldl || exit 1
mkdir -p "$here/evidence/replay"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" /opt/venv/bin/python -c "import sim.core, sim.sched, sim.runner"
