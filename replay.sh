#!/bin/bash
# ./replay.sh replays/C01-seed1-run7.json
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/pypyvenv/bin/python -m sim.runner replay "$1"
