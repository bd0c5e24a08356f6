#!/bin/bash
# selfcheck.sh PROP [N] [SEEDS...]: same seed => same event logs, across worker counts, hash seeds and processes.
set -u
cd "$(dirname "$0")" || exit 2
P=$1; N=${2:-60}; shift; shift || true
SEEDS=${*:-1 2 3}
D=$(mktemp -d); rc=0
for s in $SEEDS; do
  AVSIM_WORKERS=8 AVSIM_HASHSEED=0 ./check.sh $P --seed $s --cases $N --budget 1200 --digests $D/a >/dev/null 2>&1
  AVSIM_WORKERS=3 AVSIM_HASHSEED=12345 ./check.sh $P --seed $s --cases $N --budget 1200 --digests $D/b >/dev/null 2>&1
  if [ -s $D/a ] && cmp -s $D/a $D/b; then echo "$P seed $s: $(wc -l <$D/a) identical logs"; else echo "$P seed $s: DIFFERENT"; diff $D/a $D/b | head -4; rc=1; fi
done
/bin/rm -r "$D"; exit $rc
