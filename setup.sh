#!/bin/bash
# nothing is built ahead: every check reads and builds /repo's current tree itself
set -e
/opt/venv/bin/python -c 'import numpy, scipy, Cython, sklearn'
python3-vt -c 'import z3, sympy'
