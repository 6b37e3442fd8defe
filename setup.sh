#!/bin/bash
# nothing to build: the checks import the code from /repo/src; make sure the tools they need are there
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
exec /opt/venv/bin/python -B -c "import numpy, sympy, mpmath, scipy, astropy, numba, matplotlib, plotly; print('ok')"
