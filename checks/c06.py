import numpy as np
import torch
from mushroom_rl.core import Dataset
from mushroom_rl.core.dataset import DatasetInfo
from vlib.common import to_np

PROPERTY = 'C06'
RULE = ('random and boundary sequences of rewards and end-of-episode flags (empty, single step, no end, all ends, trailing '
        'incomplete episode, constant or huge rewards), discounts 0..1, all backends; statistics recomputed from the '
        'definition with compensated sums')
NEED = dict(datasets=500, episodes=3000, incomplete_tails=120, empty=20, single_step=30, no_complete_episode=60,
            even_episode_medians=60, metrics=400)


def defn(rew, last, gamma):
    """(returns incl. trailing incomplete episode, returns of complete ones, lengths of complete ones, start indices)"""
    js, done, lens, starts = [], [], [], []
    cur = []
    for i, (r, l) in enumerate(zip(rew, last)):
        if not cur:
            starts.append(i)
        cur.append(r)
        if l or i == len(rew) - 1:
            j = float(np.sum([x * gamma ** k for k, x in enumerate(cur)]))
            js.append(j)
            if l:
                done.append(j)
                lens.append(len(cur))
            cur = []
    return js, done, lens, starts


def stats(m, rng, backend, n, p_last, scale, gamma, sshape, spare):
    if n == 0:
        last = np.zeros(0, bool)
    elif p_last == 'end':
        last = np.zeros(n, bool)
        last[-1] = True
    else:
        last = rng.rand(n) < p_last
    rew = np.round(rng.randn(n) * scale, 3).astype(np.float32).astype(float)
    dts = (torch.float32, torch.int64) if backend == 'torch' else (np.float64, np.int64)
    info = DatasetInfo(backend, None, 100, gamma, tuple(sshape), dts[0], (1,), dts[1], None)
    ds = Dataset(info, n_steps=n + spare if n + spare else 1)
    states = []
    for i in range(n):
        s = np.arange(int(np.prod(sshape))).reshape(sshape) + 100. * i
        states.append(s)
        t = (lambda x: torch.tensor(x, dtype=torch.float32)) if backend == 'torch' else np.array
        ds.append((t(s), t(np.array([i])) if backend != 'torch' else torch.tensor([i]), float(rew[i]), t(s + 1),
                   bool(last[i] and rng.rand() < .5), bool(last[i])), {})
    probe = ds
    if n and rng.rand() < .3:                       # the same statistics on a view
        a = int(rng.randint(0, n))
        probe = ds[a:]
        rew, last, states = rew[a:], last[a:], states[a:]
        n = n - a
        m.event('views')
    tol = dict(rtol=2e-5, atol=2e-5 * scale) if backend == 'torch' else dict(rtol=1e-9, atol=1e-9 * scale)
    for g in (1., gamma):
        js, done, lens, starts = defn(rew, last, g)
        want = js if n else [0.]
        m.close(np.array(to_np(probe.compute_J(g)), float), np.array(want), 'returns', f'gamma={g}', **tol)
        if g == gamma:
            m.close(np.array(to_np(probe.discounted_return), float), np.array(want), 'discounted-return', **tol)
        else:
            m.close(np.array(to_np(probe.undiscounted_return), float), np.array(want), 'undiscounted-return', **tol)
            m.close(np.array(to_np(probe.compute_J()), float), np.array(want), 'default-gamma', **tol)
        mt = probe.compute_metrics(g)
        if done:
            w = [min(done), max(done), float(np.mean(done)), float(np.median(done)), len(done)]
            m.event('even_episode_medians', int(len(done) % 2 == 0))
        else:
            w = [0, 0, 0, 0, 0]
            m.event('no_complete_episode')
        m.close(np.array([float(x) for x in mt]), np.array(w, float), 'metrics', f'gamma={g} episodes={len(done)}', **tol)
        m.event('metrics')
    m.eq(np.array(to_np(probe.episodes_length), float).ravel(), np.array(lens, float), 'episode-lengths')
    m.eq(int(probe.n_episodes), len(js), 'number-of-episodes')
    if n:
        x0 = probe.get_init_states()
        m.eq(len(x0), len(starts), 'number-of-initial-states')
        for k, i in enumerate(starts):
            m.eq(np.array(to_np(x0[k]), float), states[i], 'initial-states')
    m.event('datasets')
    m.event('episodes', len(js))
    m.event('incomplete_tails', int(n > 0 and not last[-1]))
    m.event('empty', int(n == 0))
    m.event('single_step', int(n == 1))
    m.seen(backend, rew, last, gamma)
    m.sample(backend=backend, steps=n, episodes=len(js), complete=len(done), gamma=gamma)


def cases(tier, rng):
    for c in range(700 if tier == 'quick' else 12000):
        n = int(rng.choice([0, 1, 2, 3, 5, 10, 30, 80], p=[.06, .08, .08, .1, .18, .2, .2, .1]))
        if c % 60 == 59:
            n = 1500
        p = [0., .05, .2, .5, 1., 'end'][rng.randint(6)]
        yield stats, dict(backend=['numpy', 'torch', 'list'][c % 3], n=n, p_last=p, scale=float(rng.choice([1e-3, 1., 100.])),
                          gamma=float(rng.choice([0., .3, .9, .99, 1.])), sshape=[[1], [3], [2, 2]][rng.randint(3)],
                          spare=int(rng.choice([0, 0, 5])))
