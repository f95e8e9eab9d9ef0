#!/bin/sh
# nothing to build: the verifier is Python; check that the tools it needs are present
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
python3-vt -c "import z3, numpy; print('z3', z3.get_version_string())"
/opt/venv/bin/python -c "import numpy, sys; sys.path.insert(0, '/repo/src'); import tight_binding_redweasel; print('numpy', numpy.__version__)"
if [ -f selftest.py ]; then python3-vt selftest.py; fi
