#!/bin/sh
# ./check.sh PROPERTY [quick|thorough]: one check, from the working tree of /repo
cd "$(dirname "$0")" || exit 2
tier=${2:-${VERIF_TIER:-quick}}
unset PYTHONPATH
export HOME="${HOME:-/root}" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
MPLCONFIGDIR=$(mktemp -d) || exit 2
export MPLCONFIGDIR
/opt/venv/bin/python run.py check "$1" --tier "$tier"
code=$?
rm -rf "$MPLCONFIGDIR"
exit $code
