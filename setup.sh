#!/bin/bash
# Nothing to build: the checks are Python and import /repo's working tree. Verify the tools they need are there.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
exec /opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis, ply, pandas, pygit2
print('hypothesis', hypothesis.__version__)
P
