#!/bin/bash
# Nothing is compiled: check that the interpreter and the code under test are usable.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p evidence
PYTHONPATH="$PWD:/repo/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$(mktemp -d)" /opt/venv/bin/python -B -c "import mc.core, spectrocrunch; print('ok', spectrocrunch.__file__)"
