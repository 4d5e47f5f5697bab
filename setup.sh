#!/bin/bash
# nothing to build: pure Python; checks that the interpreter and packages are there
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
mkdir -p evidence
/opt/venv/bin/python -W ignore -c "import sys; sys.path.insert(0, '/repo'); import numpy, mdp, bimdp; print('ok', mdp.__file__)"
