#!/bin/bash
# tools/catch_bug.sh ID [CHECK-ARGS]: run the property's quick check with the planted bug applied to a scratch copy of the repository.
V="$(cd "$(dirname "$0")/.." && pwd)"; R="${AVSIM_REPO:-/repo}"
ID=$1; shift
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
mkdir -p /tmp/bugs; C=/tmp/bugs/$ID.catch; rm -rf "/tmp/bugs/$ID.catch"; cp -a "$R" "$C"
git -C "$C" apply "$V/seeded/$ID/patch.diff" || exit 2
AVSIM_REPO="$C" "$V/check.sh" ${CHECK:-$P} "$@" >/tmp/bugs/$ID.catch.log 2>&1; R=$?
rm -rf "/tmp/bugs/$ID.catch"
echo "$ID: check ${CHECK:-$P} exit $R $(grep -c ^VIOLATION /tmp/bugs/$ID.catch.log) $(grep ^VIOLATION -B3 /tmp/bugs/$ID.catch.log | head -5 | cut -c1-300)"
