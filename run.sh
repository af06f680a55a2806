#!/bin/bash
# usage: run.sh PROPERTY [--replay FILE]      (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LANG=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$PWD:/repo/src"
unset PYTHONWARNINGS
[ "$1" = C35 ] && export GLIBC_TUNABLES=glibc.malloc.tcache_count=0
exec /opt/venv/bin/python -X faulthandler -m vf.main "$@"
