#!/bin/bash
# Nothing to compile: the checks are Python and import the sources of /repo. Verify the interpreter is there.
cd "$(dirname "$0")" && mkdir -p evidence && MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import numpy, scipy, pennylane, networkx, sympy; print('setup ok')"
