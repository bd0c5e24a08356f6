#!/bin/bash
# Nothing is compiled: check that the interpreter, Aviary and the simulator import, and make the output folders.
set -eu
cd "$(dirname "$0")"
mkdir -p evidence out
export PYTHONDONTWRITEBYTECODE=1 TESTFLO_RUNNING=1 OPENMDAO_REPORTS=0 MPLBACKEND=Agg
PYTHONPATH="$PWD:/repo" /opt/venv/bin/python -W ignore -c "
import aviary.api, sim.engine, sim.fixtures
assert aviary.__file__ == '/repo/aviary/__init__.py', aviary.__file__
print('setup ok')"
