#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [-v] [--only TEXT] [--replay FILE]
cd "$(dirname "$(realpath "$0")")"
export PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export JAX_ENABLE_X64=1 JAX_PLATFORMS=cpu
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python mc/run.py "$@"
