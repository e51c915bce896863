#!/bin/bash
# Installs Hypothesis (from the offline wheelhouse) for the interpreter that runs CDMIR.
set -e
cd "$(dirname "$0")"
PY=/opt/venv/bin/python
(
  flock 9
  if ! PYTHONPATH=.deps "$PY" -c 'import hypothesis' 2>/dev/null; then
    "$PY" -m pip install -q --no-index --find-links /opt/veriftools/wheels --target .deps hypothesis
  fi
) 9>.deps.lock
PYTHONPATH=.deps "$PY" -c 'import hypothesis; print("hypothesis", hypothesis.__version__)'
