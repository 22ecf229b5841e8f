#!/bin/bash
# usage: check.sh <PROPERTY> [--tier quick|thorough] [--facet NAME] [--replay FILE]
# Runs the generated-input check of one property against /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
unset PYTHONPATH PYTEST_ADDOPTS GIT_DIR GIT_WORK_TREE GIT_INDEX_FILE
WORK=$(mktemp -d /tmp/ieml-pbt.XXXXXX) || exit 2
trap 'rm -rf "$WORK"' EXIT
mkdir -p "$WORK/cache" "$WORK/data" "$WORK/home" "$WORK/scratch"
# ieml creates cache/data folders at import and caches ply tables there (without checking that
# they are current): every run gets its own empty ones.
export XDG_CACHE_HOME="$WORK/cache" XDG_DATA_HOME="$WORK/data" HOME="$WORK/home"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$WORK/pyc" PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export GIT_CONFIG_NOSYSTEM=1 GIT_CONFIG_GLOBAL=/dev/null
export IEML_PBT_WORK="$WORK" IEML_REPO="${IEML_REPO:-/repo}"
/opt/venv/bin/python -m pbt.main "$@"
exit $?
