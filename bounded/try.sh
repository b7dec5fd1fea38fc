#!/bin/bash
# try.sh MODULE PROP GROUP [budget] [tier]: one worker, prints events
export PYTHONPATH=${VERIF_REPO:-/repo} PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 TF_USE_LEGACY_KERAS=1 JAX_ENABLE_X64=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python /verif/bounded/worker.py "{\"module\":\"$1\",\"prop\":\"$2\",\"group\":\"$3\",\"tier\":\"${5:-quick}\",\"part\":${PART:-0},\"parts\":${PARTS:-1},\"seed\":${SEED:-1},\"budget\":${4:-60},\"maxviol\":${MAXV:-200}}" 2>/tmp/try.err
