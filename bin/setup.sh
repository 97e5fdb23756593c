#!/bin/bash
# Nothing is compiled: checks that the tools the checks need are present.
set -e
cd "$(dirname "$0")/.."
python3-vt -c 'import z3, sympy, numpy, scipy'
/opt/venv/bin/python -c 'import jax, numpy, scipy, tme'
mkdir -p evidence replay
