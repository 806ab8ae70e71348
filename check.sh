#!/bin/bash
# ./check.sh C01      one check; VERIF_SEED and VERIF_TIER from the environment
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/pypyvenv/bin/python -m sim.runner check "$1"
