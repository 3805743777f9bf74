#!/bin/bash
# nothing to build: pure Python monitors; verify that the interpreter and the package under test are usable
cd "$(dirname "$0")" || exit 2
mkdir -p evidence/replay
export MPLBACKEND=agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'P' || exit 1
import sys
sys.path.insert(0, '/repo')
import mushroom_rl, numpy, torch, scipy
assert mushroom_rl.__file__.startswith('/repo/')
P
echo setup ok
