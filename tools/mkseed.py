"""mkseed(id, property, [(file, old, new), ...], needs, breaks, demo_py): writes /verif/seeded/<id>/ from textual edits of /repo."""
import json
import os
import subprocess


def mkseed(sid, prop, edits, needs, breaks, demo):
    d = f'/verif/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode == 0, 'repo dirty'
    try:
        for f, old, new in edits:
            p = f'/repo/mushroom_rl/{f}'
            s = open(p).read()
            assert s.count(old) >= 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new, 1))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
export MPLBACKEND=agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
''')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print(sid, len(diff.splitlines()), 'diff lines')
