#!/bin/bash
# nothing to build: Hypothesis is vendored, and the checks import /repo's working tree
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence
exec "$PY" -B -c "
import sys; sys.path.insert(0, '.')
from vlib import boot
import tempfile
with tempfile.TemporaryDirectory() as d:
    g = boot.load(d)
import hypothesis
print('hypothesis', hypothesis.__version__, 'gridded', g.__file__)
"
