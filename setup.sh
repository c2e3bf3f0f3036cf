#!/bin/bash
# Offline setup: make hypothesis importable for /opt/venv's Python 3.12 (vendored under .deps, git-ignored).
set -e
cd "$(dirname "$0")"
if [ ! -d .deps/hypothesis ]; then
  /opt/venv/bin/python -m pip install -q --no-index --find-links /opt/veriftools/wheels --no-compile --target .deps hypothesis sortedcontainers 2>/dev/null \
   || python3 -m pip install -q --no-index --find-links /opt/veriftools/wheels --no-compile --target .deps hypothesis sortedcontainers 2>/dev/null || true
fi
/opt/venv/bin/python -B run.py --selftest
