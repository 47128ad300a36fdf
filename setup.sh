#!/bin/bash
# Nothing to compile: checks import /repo/src directly. Verify the tools are there.
set -e
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, numpy, pandas
print("z3", z3.get_version_string(), "numpy", numpy.__version__, "pandas", pandas.__version__)
P
mkdir -p evidence
