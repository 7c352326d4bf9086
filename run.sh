#!/bin/bash
# Single entry point: ./run.sh check <ID> [--tier quick|thorough] | replay <file> | selftest
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${DST_HASHSEED:-0}" KERAS_BACKEND=torch CUDA_VISIBLE_DEVICES= \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 NUMBA_DISABLE_JIT=1 \
  PYTHONWARNINGS=ignore TF_CPP_MIN_LOG_LEVEL=3
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY no_proxy NO_PROXY
PY="${DST_PYTHON:-/opt/venv/bin/python}"
exec "$PY" -m dst.cli "$@"
