#!/bin/bash
# run.sh ID [quick|thorough]      decide one property
# run.sh --replay FILE            re-run the case a violation file describes
# Runs the code in /repo's working tree (the package is imported straight from there).
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
unset PYTHONPATH PYTHONSTARTUP PYTHONOPTIMIZE
W="$(mktemp -d "${TMPDIR:-/tmp}/verif-run.XXXXXXXX")" || exit 3
trap 'rm -rf "$W"' EXIT
export PYTHONPYCACHEPREFIX="$W/pyc"
export VERIF_SCRATCH="$W/scratch"
mkdir -p "$VERIF_SCRATCH"
/opt/venv/bin/python "$HERE/harness/main.py" "$@"
exit $?
