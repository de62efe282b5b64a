#!/bin/bash
# usage: ./check.sh <property> [--tier quick|thorough] [--replay FILE]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 2
scratch="$(mktemp -d)" || exit 2
trap 'rm -rf "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 \
  OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 CUDA_VISIBLE_DEVICES= \
  MPLBACKEND=Agg TMPDIR="$scratch" MPLCONFIGDIR="$scratch" HF_HUB_OFFLINE=1
unset PYTHONPATH
/opt/venv/bin/python mc/run.py "$@"
exit $?
