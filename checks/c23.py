"""C23: gradient step rules."""
import numpy as np
from mushroom_rl.rl_utils.optimizers import SGDOptimizer, AdaptiveOptimizer, AdamOptimizer
from mushroom_rl.rl_utils.parameters import Parameter, LinearParameter, DecayParameter

PROPERTY = 'C23'
RULE = ('random sequences of parameters and gradients (one to twenty components, magnitudes from 1e-9 to 1e9, zero gradients, '
        'restarts of the parameters, natural gradients) for each rule in both directions with constant and scheduled rates; every '
        'result is compared with the formula evaluated on the recorded sequence')
NEED = dict(steps=5000, minimizing=2000, natural_steps=300, scheduled_steps=800, adam_steps=1500, zero_gradients=100)


def rate(rng):
    c = rng.randint(5)
    if c == 0:
        return .05, lambda n: .05, False
    if c == 1:
        return Parameter(.3), lambda n: .3, False
    if c == 2:
        return LinearParameter(.5, .1, 20), lambda n: .5 - .4 * min(n, 20) / 20, True
    if c == 3:
        return 1, lambda n: 1., False
    return DecayParameter(.7, exp=.5), lambda n: .7 / n ** .5, True


def run(m, rng, kind, size, maximize, steps):
    lr, f, sched = rate(rng)
    sgn = 1. if maximize else -1.
    kw = {} if maximize and rng.rand() < .5 else dict(maximize=maximize)
    eps = 10. ** rng.uniform(-4, 2)
    b1, b2, e = float(rng.choice([.9, .5, 0.])), float(rng.choice([.999, .9])), float(10. ** rng.randint(-9, -2))
    if kind == 'sgd':
        opt = SGDOptimizer(lr=lr, **kw)
    elif kind == 'adaptive':
        opt = AdaptiveOptimizer(eps=eps, **kw)
    else:
        opt = AdamOptimizer(lr=lr, beta1=b1, beta2=b2, eps=e, **kw)
    p = rng.randn(size)
    G = []
    scale = 10. ** rng.uniform(-6, 6)
    M = rng.randn(size, size)
    M = M @ M.T / size + .3 * np.eye(size)
    for t in range(1, steps + 1):
        g = rng.randn(size) * scale * 10. ** rng.uniform(-1, 1)
        if rng.rand() < .05:
            g = np.zeros(size)
            m.event('zero_gradients')
        if rng.rand() < .1:
            p = rng.randn(size) * 3
        p0, g0 = p.copy(), g.copy()
        if kind == 'sgd':
            got, want = opt(p, g), p0 + sgn * f(t) * g0
        elif kind == 'adaptive':
            if rng.rand() < .4:
                ng = np.linalg.solve(M, g)
                ng0 = ng.copy()
                step = 1. / (2 * max(np.sqrt(g0 @ ng0 / (4 * eps)), 1e-8))
                got = opt(p, g, ng)
                m.ok(np.array_equal(ng, ng0), 'natural-gradient-modified')
                want = p0 + sgn * step * ng0
                if 1 / (2 * step) > 1e-7:
                    dl = np.asarray(got) - p0
                    m.close(dl @ M @ dl, eps, 'adaptive-step-length', f'{eps}', rtol=1e-3, atol=1e-9 * np.abs(p0).max() ** 2)
                m.event('natural_steps')
            else:
                got = opt(p, g)
                want = p0 + sgn * g0 / (2 * max(np.sqrt(g0 @ g0 / (4 * eps)), 1e-8))
        else:
            got = opt(p, g)
            G.append(sgn * g0)
            mm = sum((1 - b1) * b1 ** (t - 1 - i) * x for i, x in enumerate(G)) / (1 - b1 ** t)
            vv = sum((1 - b2) * b2 ** (t - 1 - i) * x ** 2 for i, x in enumerate(G)) / (1 - b2 ** t)
            want = p0 + f(t) * mm / (np.sqrt(vv) + e)
            m.event('adam_steps')
        m.ok(np.array_equal(p, p0), 'parameters-modified', kind)
        m.ok(np.array_equal(g, g0), 'gradient-modified', kind)
        dl = want - p0
        m.close(np.asarray(got) - p0, dl, f'{kind}-step', f'step {t} maximize {maximize}', rtol=1e-6, atol=1e-9 * (np.abs(dl).max() + np.abs(p0).max()))
        m.event('steps')
        m.event('minimizing', int(not maximize))
        m.event('scheduled_steps', int(sched and kind != 'adaptive'))
        p = np.array(got, copy=True)
        if np.abs(p).max() > 1e12:
            p = rng.randn(size)
    m.seen(kind, size, maximize, sched, steps)


def cases(tier, rng):
    R = 6 if tier == 'quick' else 60
    for r in range(R):
        for kind in ('sgd', 'adaptive', 'adam'):
            for maximize in (True, False):
                for size in (1, 3, 20):
                    yield run, dict(kind=kind, size=size, maximize=maximize, steps=60)
