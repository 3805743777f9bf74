#!/bin/bash
# usage: run.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--only SUBSTR] [-v]
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy QT_QPA_PLATFORM=offscreen
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD=1
exec /opt/venv/bin/python run.py "$@"
