"""Generated datasets with unique ids."""
import numpy as np
import torch
from mushroom_rl.core import Dataset, MDPInfo, AgentInfo
from mushroom_rl.core.dataset import DatasetInfo
from mushroom_rl.rl_utils.spaces import Box, Discrete


def dt(backend, kind):
    if backend == 'torch':
        return dict(f=torch.float32, i=torch.int64)[kind]
    return dict(f=np.float64, i=np.int64)[kind]


def mdp_info(backend, sdim=2, adim=1, discrete=False, n_actions=1000000, horizon=50, gamma=.9):
    obs = Box(-1e9, 1e9, shape=(sdim,), data_type=dt(backend, 'f'))
    act = Discrete(n_actions) if discrete else Box(-1e9, 1e9, shape=(adim,), data_type=dt(backend, 'f'))
    return MDPInfo(obs, act, gamma, horizon, backend=backend)


class Stream:
    """Endless stream of transitions of consecutive episodes: row = dict(uid, s, a, r, n, ab, last, ps, nps)."""

    def __init__(self, rng, p_last=.2, p_abs=.5, sdim=2, adim=1, ps=None):
        self.rng, self.p_last, self.p_abs, self.sdim, self.adim, self.ps = rng, p_last, p_abs, sdim, adim, ps
        self.uid = 0
        self.cur = None
        self.ep = 0

    def _s(self):
        self.uid += 1
        return np.array([float(self.uid)] + [float(self.uid) + .25 * k for k in range(1, self.sdim)])

    def rows(self, n):
        out = []
        for _ in range(n):
            if self.cur is None:
                self.cur = self._s()
                self.ep += 1
                self.mem = None if self.ps is None else np.full(self.ps, self.uid + .5)
            s = self.cur
            nx = self._s()
            la = bool(self.rng.rand() < self.p_last)
            ab = la and bool(self.rng.rand() < self.p_abs)
            mem = self.mem
            nmem = None if mem is None else np.full(self.ps, self.uid + .5)
            out.append(dict(uid=int(s[0]), s=s, a=np.full(self.adim, float(s[0]) * 2), r=float(np.round(self.rng.randn(), 3)), n=nx,
                            ab=ab, last=la, ps=mem, nps=nmem, ep=self.ep))
            self.cur = None if la else nx
            self.mem = nmem
        return out


def dataset(rows, backend, sdim, adim, ps=None, adt='f', gamma=.9, horizon=50, spare=0):
    info = DatasetInfo(backend, None, horizon, gamma, (sdim,), dt(backend, 'f'), (adim,), dt(backend, adt), ps)
    ds = Dataset(info, n_steps=max(len(rows) + spare, 1))
    f = (lambda x, k='f': torch.tensor(x, dtype=dt('torch', k))) if backend == 'torch' else \
        (lambda x, k='f': np.array(x, dtype=dt('numpy', k)))
    for q in rows:
        st = [f(q['s']), f(q['a'], adt), q['r'], f(q['n']), q['ab'], q['last']]
        if ps is not None:
            st += [f(q['ps']), f(q['nps'])]
        ds.append(tuple(st), {})
    return ds
