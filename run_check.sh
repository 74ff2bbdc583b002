#!/bin/bash
# usage: run_check.sh <property id> [--replay file]
# Runs one monitor against the code in /repo (or $PHENUM_REPO) as it is now: no bytecode is
# read from or written to the tree, so what runs is always the current source.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
export PHENUM_REPO="${PHENUM_REPO:-/repo}"
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0
export PYTHONPATH="$here/lib:$PHENUM_REPO"
exec "$py" -B -X pycache_prefix=/nonexistent-pycache "$here/checks/$id.py" "$@"
