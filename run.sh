#!/bin/bash
# bash run.sh PROPERTY [args]: run one check against /repo's current tree.
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONHASHSEED=0
export XLA_FLAGS=--xla_cpu_multi_thread_eigen=false OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -m sx.cli "$@"
