#!/bin/sh
# determinism: the event logs of the same runs in processes with different hash seeds; tools/selftest.sh [seed] [runs] [ids...]
cd "$(dirname "$0")/.." || exit 2
PY=/opt/pypyvenv/bin/python; export PYTHONDONTWRITEBYTECODE=1
s=${1:-1}; n=${2:-6}; shift 2 2>/dev/null
ids=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15}
rc=0
for p in $ids; do
  a=$(PYTHONHASHSEED=0 $PY -m sim.runner digests $p $s quick 0 $n | sha256sum)
  b=$(PYTHONHASHSEED=77 $PY -m sim.runner digests $p $s quick 0 $n | sha256sum)
  # the same runs after others in one process: nothing may stay behind in the process
  c=$(PYTHONHASHSEED=5 $PY -m sim.runner digests $p $s quick $((n - 1)) $n | sha256sum)
  d=$(PYTHONHASHSEED=0 $PY -m sim.runner digests $p $s quick 0 $n | tail -1 | sha256sum)
  if [ "$a" = "$b" ] && [ "$c" = "$d" ]; then echo "$p same"; else echo "$p DIFFERS"; rc=1; fi
done
exit $rc
