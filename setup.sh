#!/bin/bash
# Nothing to install: the framework is Python run by /opt/venv. This only checks the tools.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import numpy, scipy, Cython; print("ok", numpy.__version__)' || exit 1
command -v g++ >/dev/null && command -v clang++ >/dev/null || { echo "no C++ compiler"; exit 1; }
