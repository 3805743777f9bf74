"""C32: runs are reproducible from their seeds."""
import json
import os
import pickle
import subprocess
import sys
import tempfile
import shutil

import numpy as np
import torch

from mushroom_rl.core import Agent, Core
from mushroom_rl.rl_utils.parameters import Parameter
from checks.c09 import arrays, rng_state, same, set_rng, view
from vlib import agents
from vlib.common import digest

PROPERTY = 'C32'
RULE = ('every algorithm is trained by the real Core from a seed, recording all collected samples, the evaluation and the final parameters; the '
        'run is repeated in the same process after unrelated activity (other algorithms, the same algorithm in other configurations, saves '
        'and loads), with another agent built and trained between its construction and its training, and in new processes with another '
        'hash seed; all repetitions must record the same. Other seeds must give other data')
CASE_LIMIT = 300


class Tape:
    """Copies of every sample shown to the callbacks."""
    def __init__(self):
        self.rows = []

    def __call__(self, sample):
        self.rows.append([np.array(x, dtype=float) for x in arrays(list(sample[:6]))])


def options(kind, variant):
    """Configuration number `variant` of an algorithm."""
    o = {}
    if variant == 0:
        return o
    if kind in agents.TD:
        o = dict(pol='boltzmann') if variant == 1 else dict(decay=False, horizon=5)
    elif kind in agents.DQNS:
        o = dict(n_q=9, n_ens=2, batch=3, freq=2, nsr=3, opt=agents.sgd()) if variant == 1 else dict(pol='boltzmann', init=5, cap=15, n_q=3, clip=True)
    elif kind in agents.DEEP_AC:
        o = dict(opt=agents.sgd(), adim=2, batch=3, init=5) if variant == 1 else dict(horizon=5, cap=12, init=6)
    elif kind in agents.BATCH:
        o = dict(horizon=5) if variant == 1 else dict(pol='boltzmann')
    elif kind in agents.CLASSIC_AC + agents.PG + agents.BBO:
        o = dict(horizon=4) if variant == 1 or kind == 'eppo' else dict(adim=2)
    return o


def start(kind, seed, variant):
    agents.seed_all(seed)
    return agents.build(kind, options(kind, variant))


def train(ag, env, lk, kind, save=False):
    tape = Tape()
    core = Core(ag, env, callback_step=tape)
    half = {k: (v // 2 if k in ('n_steps', 'n_episodes') and kind != 'boosted_fqi' else v) for k, v in lk.items()}
    core.learn(**half, quiet=True)
    ev = core.evaluate(n_episodes=1, quiet=True)
    if kind != 'boosted_fqi':
        core.learn(**half, quiet=True)
    return dict(tape=[x for row in tape.rows for x in row], n=len(tape.rows), ev=arrays(list(ev.parse()[:3])), view=[np.array(x) for x in view(ag, env)],
                rnd=[float(np.random.rand()), float(torch.rand(1))])


def go(kind, seed, variant):
    ag, env, lk = start(kind, seed, variant)
    return train(ag, env, lk, kind)


def compare(m, a, b, key, what):
    m.eq(a['n'], b['n'], key, what + ': number of samples')
    same(m, a['tape'], b['tape'], key, what + ': samples')
    same(m, a['ev'], b['ev'], key, what + ': evaluation')
    same(m, a['view'], b['view'], key, what + ': learned parameters')
    m.close(b['rnd'], a['rnd'], key, what + ': random numbers consumed', rtol=0, atol=0)
    m.event('samples_compared', a['n'])


def repeat(m, rng, kind, variant):
    seed = int(rng.randint(10 ** 6))
    a = go(kind, seed, variant)
    compare(m, a, go(kind, seed, variant), f'repetition/{kind}', 'repeated at once')
    m.event('repetitions')
    # unrelated activity before
    for i in range(int(rng.randint(1, 4))):
        k = kind if i == 0 else agents.ALL[rng.randint(len(agents.ALL))]
        go(k, int(rng.randint(10 ** 6)), (variant + 1 + int(rng.randint(2))) % 3 if k == kind else int(rng.randint(3)))
        m.event('unrelated_runs')
    compare(m, a, go(kind, seed, variant), f'after-other-runs/{kind}', 'repeated after other runs')
    m.event('repetitions')
    # another agent between the construction and the training
    ag, env, lk = start(kind, seed, variant)
    st = rng_state()
    k = kind if rng.rand() < .7 else agents.ALL[rng.randint(len(agents.ALL))]
    b, benv, blk = start(k, int(rng.randint(10 ** 6)), (variant + 1 + int(rng.randint(2))) % 3)
    sb = rng_state()
    first = bool(rng.randint(2))
    if first:
        train(b, benv, blk, k)
    set_rng(st)
    c = train(ag, env, lk, kind)
    compare(m, a, c, f'interleaved/{kind}', f'with another {k} built in between')
    m.event('interleaved')
    d = go(kind, seed + 1, variant)
    m.ok(d['n'] != a['n'] or digest(d['tape']) != digest(a['tape']), f'seeds-do-not-matter/{kind}', '')
    m.event('other_seeds')
    m.event('k_' + kind)
    m.seen(kind, variant, digest(a['tape'])[:8])


CODE = r'''
import sys, pickle
sys.path.insert(0, %r)
from checks import c32
out = [c32.go(*x) for x in pickle.load(open(%r, 'rb'))]
pickle.dump(out, open(%r, 'wb'))
'''


def new_process(m, rng, n):
    d = tempfile.mkdtemp(prefix='c32-')
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    try:
        spec = [(agents.ALL[i], int(rng.randint(10 ** 6)), int(rng.randint(3))) for i in rng.permutation(len(agents.ALL))[:n]]
        pickle.dump(spec, open(os.path.join(d, 'a'), 'wb'))
        pickle.dump(spec[::-1], open(os.path.join(d, 'b'), 'wb'))
        ps = [subprocess.Popen([sys.executable, '-c', CODE % (root, os.path.join(d, x), os.path.join(d, x + '.out'))], stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONHASHSEED=h)) for x, h in (('a', '0'), ('b', str(rng.randint(1, 10 ** 6))))]
        here = [go(*x) for x in spec]
        for p in ps:
            _, e = p.communicate(timeout=250)
            m.ok(p.returncode == 0, 'new-process/fails', e[-300:])
        for x in ('a', 'b'):
            res = pickle.load(open(os.path.join(d, x + '.out'), 'rb'))
            for (kind, s, v), a, b in zip(spec, here, res if x == 'a' else res[::-1]):
                compare(m, a, b, f'new-process/{kind}', f'in a new process, variant {v}')
                m.event('new_process')
                m.event('p_' + kind)
    finally:
        shutil.rmtree(d, ignore_errors=True)


NEED = dict(repetitions=250, unrelated_runs=220, interleaved=125, other_seeds=125, new_process=80, samples_compared=30000, **{'k_' + k: 3 for k in agents.ALL})


def cases(tier, rng):
    q = 1 if tier == 'quick' else 6
    for _ in range(q):
        for v in range(3):
            for k in agents.ALL:
                yield 'repeat', dict(kind=k, variant=v)
    for _ in range(8 * q):
        yield 'new_process', dict(n=8)
