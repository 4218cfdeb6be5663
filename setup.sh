#!/bin/bash
# Nothing is prebuilt: every check imports (or compiles) the code under test from /repo itself.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
chmod +x check.sh
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
from vt import paths
paths.setup_import()
import hypothesis, numpy, h5py
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'h5py', h5py.__version__)"
