#!/bin/bash
# Nothing to build: the code under test is Python, imported live from /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${ISA_REPO:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
mkdir -p evidence/replay
/opt/venv/bin/python -B -c "import instancespace, numpy, scipy, sklearn, shapely, pygad; print('ok', instancespace.__file__)"
