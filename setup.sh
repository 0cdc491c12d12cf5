#!/bin/bash
# Nothing to build: checks that the interpreter, the library and all monitors load.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/verif-pycache
exec /opt/venv/bin/python -B - <<'P'
import glob, importlib, os, sys
sys.path.insert(0, os.getcwd())
from harness.core import load_library
load_library()
for f in sorted(glob.glob('checks/c*.py')):
    importlib.import_module('checks.' + os.path.basename(f)[:-3])
print('ok')
P
