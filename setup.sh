#!/bin/bash
# nothing to compile: tries whether the simulator loads the working tree (repeatability: tools/selftest.sh)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
/opt/pypyvenv/bin/python -m sim.runner digests C01 7 quick 0 3 >/dev/null || echo 'the code under test cannot be run'
exit 0
