#!/bin/bash
# nothing to build: the monitors are Python and run the sources in /repo as they are
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
cd "$here" && PYTHONPATH="$here/lib:${PHENUM_REPO:-/repo}" "$py" -B -c "import numpy, vlib.harness, vlib.geom, vlib.run, vlib.lattices, vlib.enumcheck; import phenum; print('ready', phenum.__file__)"
