import numpy as np
import torch
from mushroom_rl.core import Dataset
from mushroom_rl.core.dataset import DatasetInfo, VectorizedDataset
from mushroom_rl.core.extra_info import ExtraInfo
from vlib.common import to_np

PROPERTY = 'C07'
RULE = ('random nested info structures (numbers, vectors, matrices, nested dictionaries, keys missing in some steps) x '
        'sequences of append / parse / view / copy / concatenate / clear / flatten, one or several environments, list and '
        'array form; compared value by value with a list of dictionaries; distinct by structure and operations')
NEED = dict(reused=200, operations=4000, appended=6000, values_compared=60000, nested_keys=200, missing_values=500, views=400,
            copies=300, concatenations=300, flattened=150, vector_appends=800, clears=60, dataset_level=100)


def structure(rng, depth=0):
    """random dictionary shape: key -> 'num' | shape | sub-structure"""
    out = {}
    level = str(depth) if rng.rand() < .5 else ''        # the same names may appear on several levels
    for i in range(rng.randint(1, 4)):
        k = f'k{level}{i}'
        r = rng.rand()
        if depth < 3 and r < .3:
            out[k] = structure(rng, depth + 1)
        elif r < .65:
            out[k] = 'num'
        elif r < .75:
            out[k] = 'bool'
        else:
            out[k] = [int(x) for x in rng.randint(1, 4, rng.randint(1, 3))]
    return out


def paths(st, pre=()):
    for k, v in st.items():
        if isinstance(v, dict):
            yield from paths(v, pre + (k,))
        else:
            yield pre + (k,), v


class Gen:
    def __init__(self, rng, st, backend, p_missing):
        self.rng, self.st, self.backend, self.p = rng, st, backend, p_missing
        self.uid = 0

    def value(self, v, n=None):
        self.uid += 1
        lead = () if n is None else (n,)
        if v == 'num':
            if n is None:
                return float(self.uid) if self.rng.rand() < .7 else int(self.uid)
            x = self.uid * 10. + np.arange(n)
        elif v == 'bool':
            if n is None:
                return bool(self.uid % 2)
            x = (np.arange(n) + self.uid) % 2 == 0
        else:
            x = self.uid + np.arange(int(np.prod(lead + tuple(v)))).reshape(lead + tuple(v)) / 256.
        return torch.tensor(x, dtype=torch.float32) if self.backend == 'torch' else np.array(x)

    def one(self, n=None, st=None):
        st = self.st if st is None else st
        out = {}
        for k, v in st.items():
            if n is None and self.rng.rand() < self.p:
                continue
            if isinstance(v, dict):
                sub = self.one(n, v)
                if sub:
                    out[k] = sub
            else:
                out[k] = self.value(v, n)
        return out


def find(d, path):
    for k in path:
        if not isinstance(d, dict) or k not in d:
            return None
        d = d[k]
    return d


def check(m, info, rows, st, n_envs, what, to=None):
    """rows: list over steps of (dict | list of dict)"""
    info.parse(to=to)
    appearing = {}
    for p, v in paths(st):
        vals = [find(r, p) if isinstance(r, dict) else [find(e, p) for e in r] for r in rows]
        if any((x is not None) if not isinstance(x, list) else any(y is not None for y in x) for x in vals):
            appearing['_'.join(p)] = (p, v, vals)
    if not rows or not appearing:
        return
    m.ok(set(appearing) <= set(info.keys()), f'{what}-key-lost', f'{set(appearing) - set(info.keys())}')
    for key, (p, v, vals) in appearing.items():
        got = info[key]
        m.eq(len(got), len(rows), f'{what}-length', f'key {key}')
        if to == 'torch':
            m.ok(isinstance(got, torch.Tensor), f'{what}-type')
        elif to == 'numpy':
            m.ok(isinstance(got, np.ndarray), f'{what}-type')
        g = to_np(got).astype(float)
        for i, x in enumerate(vals):
            if isinstance(x, list):
                for e in range(n_envs):
                    _cmp(m, g[i][e], x[e], what, f'{key}[{i}][{e}]')
            else:
                _cmp(m, g[i], x, what, f'{key}[{i}]')


def _cmp(m, g, x, what, where):
    m.event('values_compared')
    if x is None:
        m.ok(np.all(np.isnan(g)), f'{what}-value-for-missing', where)
        m.event('missing_values')
    else:
        w = np.array(to_np(x), dtype=float)
        m.ok(g.shape == w.shape and np.allclose(g, w, rtol=1e-6), f'{what}-value', lambda: f'{where} {g} != {w}')


def operations(m, rng, backend, n_envs, p_missing, n_ops, form):
    st = structure(rng)
    if any(len(p) > 1 for p, _ in paths(st)):
        m.event('nested_keys')
    gen = Gen(rng, st, backend, p_missing)

    def nxt():
        if n_envs == 1:
            return gen.one()
        if form == 'list':
            return [gen.one() for _ in range(n_envs)]
        return gen.one(n_envs)
    live = [[ExtraInfo(n_envs, backend), []]]
    names = []
    for _ in range(n_ops):
        q = live[rng.randint(len(live))]
        info, rows = q
        keyed = any(find(e, p) is not None for r in rows for e in (r if isinstance(r, list) else [r]) for p, _ in paths(st))
        op = str(rng.choice(['append'] * 5 + ['parse', 'view', 'copy', 'add', 'clear', 'flatten', 'new']))
        m.event('operations')
        names.append(op)
        if op == 'append':
            for _ in range(rng.randint(1, 5)):
                x = nxt()
                info.append(x)
                rows.append(x)
                m.event('appended')
                if n_envs > 1:
                    m.event('vector_appends')
        elif op == 'parse':
            check(m, info, rows, st, n_envs, 'parse', to=str(rng.choice(['numpy', 'torch'])) if rng.rand() < .3 else None)
        elif op == 'view' and rows and keyed:
            n = len(rows)
            if rng.rand() < .5:
                a, b = sorted(int(x) for x in rng.randint(0, n + 1, 2))
                idx = slice(a, b)
                sel = rows[idx]
            else:
                idx = rng.randint(0, n, rng.randint(1, 5))
                sel = [rows[i] for i in idx]
            cp = bool(rng.rand() < .5)
            v = info.get_view(idx, cp)
            check(m, v, sel, st, n_envs, 'view')
            if cp:
                for k in v.data:
                    v.data[k][...] = 0
                check(m, info, rows, st, n_envs, 'original-after-view-copy')
            if len(live) < 4 and sel and any(find(e, p) is not None for r in sel
                                             for e in (r if isinstance(r, list) else [r]) for p, _ in paths(st)):
                live.append([info.get_view(idx, True), list(sel)])
            m.event('views')
        elif op == 'copy':
            c = info.copy()
            live.append([c, list(rows)])
            check(m, c, rows, st, n_envs, 'copy')
            if rng.rand() < .5:
                for k in c.data:
                    c.data[k][...] = -1
                live.pop()
            else:
                x = nxt()
                c.append(x)
                live[-1][1].append(x)
            check(m, info, rows, st, n_envs, 'original-after-copy')
            m.event('copies')
        elif op == 'add':
            o = live[rng.randint(len(live))]
            r = info + o[0]
            check(m, r, rows + o[1], st, n_envs, 'concatenation')
            check(m, info, rows, st, n_envs, 'left-operand')
            check(m, o[0], o[1], st, n_envs, 'right-operand')
            m.event('concatenations')
        elif op == 'clear' and rng.rand() < .4:
            info.clear()
            q[1] = rows = []
            m.event('clears')
            m.eq(len(info.data), 0, 'clear')
        elif op == 'flatten' and n_envs > 1 and keyed:
            mask = rng.rand(len(rows), n_envs) < .7
            info.parse()
            f = info.flatten(torch.tensor(mask) if isinstance(next(iter(info.data.values())), torch.Tensor) else mask)
            flat = []
            for e in range(n_envs):
                for t in range(len(rows)):
                    if mask[t, e]:
                        flat.append(rows[t][e] if isinstance(rows[t], list) else _env(rows[t], e))
            check(m, f, flat, st, 1, 'flatten')
            check(m, info, rows, st, n_envs, 'original-after-flatten')
            m.event('flattened')
        elif op == 'new' and len(live) < 4:
            live.append([ExtraInfo(n_envs, backend), []])
        if len(live) > 5:
            live.pop(0)
        m.ok(sum(len(p) for p in names) > 0, 'x')
    for info, rows in live:
        check(m, info, rows, st, n_envs, 'final')
    m.seen(st, names, n_envs)
    m.sample(structure=st, ops=names[:10], envs=n_envs)


def _env(d, e):
    return {k: _env(v, e) if isinstance(v, dict) else v[e] for k, v in d.items()}


def reuse(m, rng, backend, n_envs, form, n):
    """a cleared store holds nothing of what it held before: no keys, no shapes"""
    info = ExtraInfo(n_envs, backend)
    for _ in range(n):
        st = structure(rng)
        gen = Gen(rng, st, backend, 0.)
        rows = []
        for _ in range(rng.randint(1, 6)):
            x = gen.one() if n_envs == 1 else [gen.one() for _ in range(n_envs)] if form == 'list' else gen.one(n_envs)
            info.append(x)
            rows.append(x)
        if rng.rand() < .3:
            info.parse()
        check(m, info, rows, st, n_envs, 'reused')
        m.eq(sorted(info.keys()), sorted('_'.join(p) for p, _ in paths(st)), 'reused-keys')
        m.event('reused')
        info.clear()
        m.eq(len(info), 0, 'cleared-length')
        m.seen(st, len(rows), n_envs)


def dataset_level(m, rng, backend, n):
    """infos follow their transitions through views, concatenation and get_info of a dataset"""
    t = torch if backend == 'torch' else np
    mk = (lambda x: torch.tensor(x, dtype=torch.float32)) if backend == 'torch' else np.array
    info = DatasetInfo(backend, None, 10, .9, (1,), torch.float32 if backend == 'torch' else float, (1,),
                       torch.float32 if backend == 'torch' else float, None)

    def make(k, base):
        ds = Dataset(info, n_steps=k + 2)
        for i in range(k):
            x = float(base + i)
            ds.append((mk([x]), mk([x]), x, mk([x + 1]), False, bool(rng.rand() < .3)),
                      dict(u=x, s=dict(v=mk([x, 2 * x]))))
        return ds

    def aligned(ds, what):
        ds.info.parse()
        s = np.array([float(x[0]) for x in ds.state])
        m.eq(to_np(ds.info['u']).astype(float), s, what)
        m.eq(to_np(ds.info['s_v']).astype(float), np.stack([s, 2 * s], 1), what + '-nested')
        m.eq(to_np(ds.get_info('u')).astype(float), s, what + '-get-info')
        m.eq(float(ds.get_info('u', len(ds) - 1)), s[-1], what + '-get-info-index')
        m.event('dataset_level')
    a, b = make(n, 0), make(n + 1, 1000)
    if rng.rand() < .5:
        a.info.parse()
    if rng.rand() < .5:
        b.info.parse()
    c = a + b
    aligned(c, 'concatenated-dataset')
    aligned(c[1:], 'sliced-dataset')
    aligned(c[np.array([2, 0, n])], 'indexed-dataset')
    aligned(a, 'first-dataset')
    x = 500.
    a.append((mk([x]), mk([x]), x, mk([x + 1]), False, True), dict(u=x, s=dict(v=mk([x, 2 * x]))))
    aligned(a, 'appended-after-parse')
    aligned(a.select_first_episodes(1), 'first-episodes')
    parts = c.parse()
    d = Dataset.from_array(*parts, info=c.info, horizon=10, gamma=.9, backend=backend)
    aligned(d, 'rebuilt-dataset')
    c.clear()
    aligned(d, 'rebuilt-dataset-after-clear')
    m.seen(backend, c.last)


def cases(tier, rng):
    n = 700 if tier == 'quick' else 4000
    for c in range(n):
        be = ['numpy', 'torch', 'list'][c % 3]
        yield operations, dict(backend=be, n_envs=int(rng.choice([1, 1, 2, 4])), p_missing=float(rng.choice([0., 0., .2])),
                               n_ops=int(rng.randint(8, 40)), form=str(rng.choice(['list', 'dict'])))
    for c in range(90 if tier == 'quick' else 900):
        yield reuse, dict(backend=['numpy', 'torch', 'list'][c % 3], n_envs=int(rng.choice([1, 1, 3])), form=str(rng.choice(['list', 'dict'])), n=5)
    for c in range(30 if tier == 'quick' else 300):
        yield dataset_level, dict(backend=['numpy', 'torch'][c % 2], n=int(rng.randint(2, 9)))
