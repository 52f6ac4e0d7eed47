#!/bin/bash
# Usage: bash check.sh C01       (VERIF_SEED, VERIF_TIER from the environment)
#        bash check.sh --replay C01 FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv-pypy/bin/python -B -m gm.run "$@"
