#!/bin/bash
# tools/verify_bug.sh ID... : confirm planted bugs in a scratch copy of /repo: demo passes without and
# fails with the patch, and the stable tests still pass with it. (--no-tests as first argument skips them)
V="$(cd "$(dirname "$0")/.." && pwd)"; S="${AVSIM_REPO:-/repo}"; mkdir -p /tmp/bugs
NT=0; [ "$1" = --no-tests ] && { NT=1; shift; }
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TESTFLO_RUNNING=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PATH="/opt/venv/bin:$PATH"
for ID in "$@"; do
  D=$V/seeded/$ID; C=/tmp/bugs/$ID.copy; L=/tmp/bugs/$ID.demo
  rm -rf "/tmp/bugs/$ID.copy" "/tmp/bugs/$ID.demo"; cp -a "$S" "$C"; mkdir -p "$L"
  find "$D" -type f ! -name '*.diff' ! -name meta.json -exec cp {} "$L/" \;
  cd "$C" || exit 1; export PYTHONPATH="$C"
  timeout 300 bash "$L/demo.sh" >/tmp/bugs/$ID.clean.log 2>&1; A=$?
  git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; continue; }
  timeout 300 bash "$L/demo.sh" >/tmp/bugs/$ID.bug.log 2>&1; B=$?
  R="demo clean=$A bug=$B"
  if [ $NT = 0 ]; then
    /opt/venv/bin/python -m pytest -q -n 8 --dist worksteal -p no:cacheprovider --timeout=600 --disable-warnings --tb=no -o junit_family=xunit2 --junitxml=/tmp/bugs/$ID.xml aviary >/tmp/bugs/$ID.test.log 2>&1
    python3 /opt/vp/results.py /tmp/bugs/$ID.json junit:/tmp/bugs/$ID.xml >/dev/null
    R="$R $(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('/tmp/bugs/$ID.json'))['passed']
m=sorted(set(b)-set(t)); print('tests missing',len(m),m[:4])")"
  fi
  echo "$ID: $R"
  cd /; rm -rf "/tmp/bugs/$ID.copy" "/tmp/bugs/$ID.demo"
done
