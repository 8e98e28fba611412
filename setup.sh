#!/bin/bash
# Nothing is compiled ahead of time: the checks import /repo/src as it is. Only verifies the interpreter.
/opt/venv/bin/python -c "import numpy, pandas, numba, healpy, spiceypy, tables; print('ok')"
