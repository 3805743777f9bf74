"""C22: schedules."""
import numpy as np
from mushroom_rl.rl_utils.parameters import Parameter, LinearParameter, DecayParameter, to_parameter
from mushroom_rl.rl_utils.variance_parameters import (VarianceIncreasingParameter, VarianceDecreasingParameter,
                                                      WindowedVarianceIncreasingParameter)

PROPERTY = 'C22'
RULE = ('random schedules (values, exponents, thresholds above and below, limits, table shapes of one to three axes) driven by random '
        'sequences of calls, updates and readings at random entries (integers and one-element arrays); the monitor keeps the '
        'history of every entry and recomputes the value from it')
NEED = dict(far_values=60, calls=8000, readings=8000, updates=1000, limited=500, entries=800, linear_end=300, adaptive_calls=2500, window_full=500, other_entries=3000)


def scalar(m, x):
    x = np.asarray(x, dtype=float)
    m.eq(x.size, 1, 'value-is-not-a-scalar')
    return float(x.reshape(-1)[0])


def index(rng, shape, arrays):
    idx = [int(rng.randint(s)) for s in shape]
    return tuple(idx), [np.array([i]) for i in idx] if arrays else idx


def clip(v, lo, hi):
    if lo is not None:
        v = max(v, lo)
    if hi is not None:
        v = min(v, hi)
    return v


def schedule(m, rng, kind, shape, steps):
    shape = tuple(shape)
    v0 = float(rng.choice([1., .5, .1, 3., 0.]) if rng.rand() < .7 else rng.randn() * 3)
    lo = hi = None
    size = {} if shape == (1,) and rng.rand() < .5 else dict(size=shape)
    if kind == 'constant':
        if rng.rand() < .5:
            lo, hi = sorted(rng.randn(2))
        p = Parameter(v0, min_value=lo, max_value=hi, **size)
        f = lambda n: v0
    elif kind == 'linear':
        th, n_ = float(v0 + rng.choice([-1, 1]) * rng.rand() * 3), int(rng.randint(1, 40))
        if rng.rand() < .1:
            th = v0
        p = LinearParameter(v0, threshold_value=th, n=n_, **size)
        f = lambda n: v0 + (th - v0) / n_ * min(n, n_)
    else:
        ex = float(rng.choice([1., .5, 2., .1, 0.]))
        if rng.rand() < .5:
            lo = float(rng.choice([.05, .3]))
        if rng.rand() < .4:
            hi = .8 if (lo or 0) < .8 else None
        p = DecayParameter(v0, exp=ex, min_value=lo, max_value=hi, **size)
        f = lambda n: v0 / max(n, 1) ** ex
    m.eq(float(p.initial_value), v0, 'initial-value')
    m.eq(tuple(p.shape), shape, 'table-shape')
    if rng.rand() < .3:
        m.ok(to_parameter(p) is p, 'conversion-replaces-the-schedule')
    n = {}
    arrays = rng.rand() < .5
    for t in range(steps):
        key, idx = index(rng, shape, arrays)
        single = int(np.prod(shape)) == 1
        if single and rng.rand() < .5:
            idx = []
        op = rng.rand()
        if op < .55:
            n[key] = n.get(key, 0) + 1
            got = scalar(m, p(*idx))
            m.event('calls')
            kind_ = 'called-value'
        elif op < .65:
            n[key] = n.get(key, 0) + 1
            p.update(*idx)
            m.event('updates')
            continue
        else:
            got = scalar(m, p.get_value(*idx))
            m.event('readings')
            kind_ = 'read-value'
        want = clip(f(n.get(key, 0)), lo, hi)
        m.close(got, want, f'{kind}-{kind_}', f'after {n.get(key, 0)} updates of {key} in {shape}', rtol=1e-9, atol=1e-12)
        if (lo is not None or hi is not None) and want != f(n.get(key, 0)):
            m.event('limited')
        if kind == 'linear' and n.get(key, 0) >= n_:
            m.eq(abs(got - th) < 1e-12 + 1e-9 * abs(th), True, 'linear-passes-threshold', f'{got} {th}')
            m.event('linear_end')
        if not single and rng.rand() < .4:                  # another entry is not affected
            k2, i2 = index(rng, shape, arrays)
            m.close(scalar(m, p.get_value(*i2)), clip(f(n.get(k2, 0)), lo, hi), f'{kind}-other-entry', f'{k2} after change of {key}', rtol=1e-9, atol=1e-12)
            m.event('other_entries')
    m.event('entries', len(n))
    m.seen(kind, shape, v0, lo, hi, len(n))


def long_run(m, rng, kind, total):
    """schedules far into a run"""
    v0 = float(rng.choice([1., 2.]))
    if kind == 'linear':
        th, N = float(rng.choice([.1, 0.])), int(total * rng.uniform(.5, 2))
        p, f = LinearParameter(v0, threshold_value=th, n=N), lambda n: v0 + (th - v0) / N * min(n, N)
    elif kind == 'decay':
        ex = float(rng.choice([.3, 1.]))
        p, f = DecayParameter(v0, exp=ex), lambda n: v0 / max(n, 1) ** ex
    else:
        p, f = Parameter(v0), lambda n: v0
    at = set(int(x) for x in np.unique(np.round(np.geomspace(1, total, 40)))) | {255, 256, 257, 32767, 32768, 65535, 65536, 65537}
    for n in range(1, total + 1):
        if rng.rand() < .5:
            p.update()
            got = None
        else:
            got = scalar(m, p())
        if n in at:
            m.close(scalar(m, p.get_value()), f(n), f'{kind}-far-value', f'after {n} updates', rtol=1e-9, atol=1e-12)
            if got is not None:
                m.close(got, f(n), f'{kind}-far-value', f'call {n}', rtol=1e-9, atol=1e-12)
            m.event('far_values')
    m.event('far_updates', total)
    m.seen(kind, v0, total)


def adaptive(m, rng, kind, shape, exponential, tol, window, steps):
    shape = tuple(shape)
    v0 = float(rng.choice([1., .5, .2]))
    lo = float(rng.choice([.05, .2])) if rng.rand() < .4 else None
    size = {} if shape == (1,) and rng.rand() < .5 else dict(size=shape)
    if kind == 'windowed':
        p = WindowedVarianceIncreasingParameter(v0, exponential=exponential, min_value=lo, tol=tol, window=window, **size)
    else:
        p = (VarianceIncreasingParameter if kind == 'increasing' else VarianceDecreasingParameter)(v0, exponential=exponential, min_value=lo, tol=tol, **size)
    m.eq(tuple(p.shape), shape, 'table-shape')
    H = {}
    arrays = rng.rand() < .5
    scale = float(rng.choice([.3, 1., 5.]))
    for t in range(steps):
        key, idx = index(rng, shape, arrays)
        h = H.setdefault(key, dict(x=[], w=0., v=None))
        x = float(rng.randn() * scale + rng.choice([0., 3.]))
        kw = {}
        fac = 1.
        if rng.rand() < .3:
            fac = kw['factor'] = float(rng.rand())
        n = len(h['x'])
        if n < 2:
            v = v0
        else:
            if kind == 'windowed':
                var = float(np.var(h['x'][-window:]))
                m.event('window_full', int(n >= window))
            else:
                var = float(np.var(h['x'], ddof=1))
            s = var * h['w']
            if kind == 'decreasing':
                v = np.exp(s * np.log(.5) / tol) if exponential else tol / (s + tol)
            else:
                v = 1 - np.exp(s * np.log(.5) / tol) if exponential else s / (s + tol)
        h['x'].append(x)
        h['w'] = (1 - fac * v) ** 2 * h['w'] + (fac * v) ** 2
        h['v'] = v
        got = scalar(m, p(*idx, target=x, **kw))
        m.close(got, clip(v, lo, None), f'{kind}-value', f'update {n} of {key} in {shape} exponential {exponential}', rtol=1e-6, atol=1e-8)
        m.event('adaptive_calls')
        m.event('limited', int(lo is not None and v < lo))
        k2 = list(H)[rng.randint(len(H))]
        if int(np.prod(shape)) > 1:
            m.close(scalar(m, p.get_value(*k2)), clip(H[k2]['v'], lo, None), f'{kind}-other-entry', f'{k2}', rtol=1e-6, atol=1e-8)
            m.event('other_entries')
        m.event('readings')
    m.event('entries', len(H))
    m.seen(kind, shape, exponential, tol, window, len(H))


def cases(tier, rng):
    for kind in ('linear', 'decay', 'constant'):
        for total in ([70000] if tier == 'quick' else [70000, 300000, 1100000]):
            yield long_run, dict(kind=kind, total=total)
    R = 6 if tier == 'quick' else 80
    for r in range(R):
        for shape in ((1,), (4,), (3, 2), (2, 3, 2), (1, 1)):
            for kind in ('constant', 'linear', 'decay'):
                for c in range(2):
                    yield schedule, dict(kind=kind, shape=shape, steps=200)
            if shape == (1, 1):
                continue
            for kind in ('increasing', 'decreasing', 'windowed'):
                yield adaptive, dict(kind=kind, shape=shape, exponential=bool(r % 2), tol=float(rng.choice([.1, 1., 4.])), window=int(rng.choice([3, 10, 25])), steps=150)
