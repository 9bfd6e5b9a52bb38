#!/bin/bash
# Nothing to build: make sure the interpreter, the libraries and the code under test are where the checks expect them.
cd "$(dirname "$0")/.." || exit 1
exec /opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "/repo"); import hypothesis, numpy, mediagrains; from harness import core; print("ready", hypothesis.__version__)'
