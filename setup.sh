#!/bin/sh
# Nothing to build: checks that the interpreter, the libraries and /repo load.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 1
MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here:${DST_REPO:-/repo}/src" /opt/venv/bin/python -c "import disc_solver, dst.world" || exit 1
mkdir -p "$here/evidence" "$here/replays"
