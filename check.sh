#!/bin/bash
# ./check.sh ID [quick|thorough] [--replay FILE] [--family NAME]
# Runs one property's monitors against the code in /repo (working tree, imported live).
cd "$(dirname "$0")" || exit 2
ID=${1:?usage: check.sh ID [quick|thorough]}; shift
REPO=${ISA_REPO:-/repo}
export ISA_REPO=$REPO
export PYTHONPATH="$REPO:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/isa-check.XXXXXX") || exit 2
export ISA_SCRATCH=$SCRATCH MPLCONFIGDIR=$SCRATCH/mpl
trap 'rm -rf "$SCRATCH"' EXIT
/opt/venv/bin/python -B "checks/$ID.py" "$@"
