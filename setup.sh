#!/bin/bash
# Nothing to compile: the checks import dascore straight from /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
/opt/venv/bin/python -B -c "import numpy, pandas, pint, tables, h5py; import mc.core"
