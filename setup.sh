#!/bin/bash
# Makes Hypothesis importable for the test interpreter (a copy under /verif/.deps) and warms the compile cache.
cd "$(dirname "$0")" || exit 2
if ! PYTHONPATH="$PWD/.deps" /opt/venv/bin/python -c 'import hypothesis' 2>/dev/null; then
    /opt/venv/bin/python -m pip install -q --no-index --find-links /opt/veriftools/wheels --target .deps hypothesis \
        >/dev/null 2>&1 || echo "note: using the Hypothesis of /opt/veriftools/pyvenv"
fi
PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore -c '
import shutil, tempfile
from fv import build
d = tempfile.mkdtemp(prefix="fv_setup_")
try:
    build.prepare(d)
finally:
    shutil.rmtree(d, ignore_errors=True)
print("setup done")'
