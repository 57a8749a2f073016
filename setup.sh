#!/bin/bash
# Nothing needs to be built: the checks are Python and import /repo as it is. This verifies the tools are there.
set -e
cd "$(dirname "$0")"
PYTHONPATH=/repo:lib PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, booktest, requests, httpx, pandas
print("hypothesis", hypothesis.__version__, "booktest", booktest.__file__)
P
