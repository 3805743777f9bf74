"""C29: observation preprocessors and running statistics."""
import os
import tempfile

import numpy as np
import torch

from mushroom_rl.core import MDPInfo
from mushroom_rl.rl_utils.preprocessors import MinMaxPreprocessor, Preprocessor, StandardizationPreprocessor
from mushroom_rl.rl_utils.running_stats import RunningAveragedWindow, RunningExpWeightedAverage, RunningStandardization
from mushroom_rl.rl_utils.spaces import Box, Discrete

PROPERTY = 'C29'
RULE = ('random streams of observations (scalars to three axes, badly scaled, constant, integer), cut into single observations and batches '
        'at random, with both backends, default and larger catch-up rates, random bounds (none, some or all components bounded); every '
        'reported statistic and every mapped observation (single and batch) is compared with a model that keeps the whole stream, the '
        'observation handed in is compared with its copy, and the run continues on a saved and reloaded twin')
NEED = dict(standardization_updates=1500, standardization_stats=1500, catchup_updates=200, ema_updates=600, window_updates=600,
            window_full=200, mapped_standard=800, mapped_minmax=800, mapped_batches=500, clipped=80, bounded_all=60, bounded_some=60,
            bounded_one=15, reloads=200, resets=60, constant_stream=20, core_streams=20, chained=500)


def arr(x, backend, single=False):
    x = np.array(x)
    return torch.tensor(x) if backend == 'torch' else x


def nump(x):
    return x.detach().cpu().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)


def reload(m, obj):
    with tempfile.TemporaryDirectory(prefix='c29-') as d:
        p = os.path.join(d, 'o.msh')
        obj.save(p, full_save=True)
        new = type(obj).load(p)
    m.event('reloads')
    return new


class Moments:
    """Recursion of the documented running standardization in float64 (equal to the plain moments of {0 with unit deviation} + stream)."""
    def __init__(self, shape, alpha):
        self.shape, self.alpha = shape, alpha
        self.reset()

    def reset(self):
        self.n, self.m, self.s, self.x, self.exact = 1, np.zeros(self.shape), np.ones(self.shape), [np.zeros(self.shape)], True

    def update(self, batch):
        b = np.asarray(batch, dtype=float).reshape((-1,) + self.shape)
        self.x += list(b)
        self.n += len(b)
        a = max(len(b) / self.n, self.alpha)
        self.exact &= a == len(b) / self.n
        if self.exact:
            x = np.array(self.x)
            self.m = x.mean(0)
            self.s = 1 + ((x - self.m) ** 2).sum(0)
        else:
            new = (1 - a) * self.m + a * b.mean(0)
            self.s = self.s + ((b - self.m) * (b - new)).sum(0)
            self.m = new

    @property
    def std(self):
        return np.sqrt(self.s / self.n)


def stream(rng, shape, kind):
    loc = rng.randn(*shape) * rng.choice([0, 1, 5.])
    scale = np.exp(rng.randn(*shape) * rng.choice([.3, 1.]))

    def draw(k):
        if kind == 'constant':
            return np.broadcast_to(loc, (k,) + shape).copy()
        if kind == 'int':
            return rng.randint(-5, 6, (k,) + shape)
        return loc + scale * rng.randn(k, *shape)
    return draw


SHAPES = [(1,), (3,), (5,), (2, 3), (1, 4), (2, 2, 2)]


def tol(backend):
    return dict(rtol=2e-4, atol=2e-4) if backend == 'torch' else dict(rtol=1e-8, atol=1e-9)


def standardization(m, rng, backend, catchup):
    shape = SHAPES[rng.randint(len(SHAPES))]
    kind = str(rng.choice(['normal', 'normal', 'normal', 'constant'] + ['int'] * (backend == 'numpy')))
    alpha = float(rng.choice([.05, .2, .5])) if catchup else 1e-32
    kw = {} if not catchup and rng.rand() < .5 else dict(alpha=alpha)
    st, ref = RunningStandardization(shape, backend, **kw), Moments(shape, alpha)
    draw = stream(rng, shape, kind)
    if kind == 'constant':
        m.event('constant_stream')
    for t in range(rng.randint(5, 40)):
        k = int(rng.choice([0, 1, 2, 5, 17, 1200], p=[.19, .2, .2, .2, .19, .02]))
        b = draw(max(k, 1))
        x = b[0] if k == 0 else b
        xx = arr(x, backend)
        st.update_stats(xx)
        m.eq(nump(xx), x, 'input-altered', 'the statistics changed the observation they were shown')
        ref.update(b if k else b[:1])
        m.event('standardization_updates')
        m.event('catchup_updates', int(catchup))
        got_m, got_s = nump(st.mean), nump(st.std)
        m.close(got_m.reshape(shape), ref.m, 'running-mean', f'{backend} {shape} after {ref.n - 1} samples', **tol(backend))
        m.close(got_s.reshape(shape), ref.std, 'running-std', f'{backend} {shape} after {ref.n - 1} samples', **tol(backend))
        m.event('standardization_stats')
        m.seen(backend, shape, k, kind, catchup)
        r = rng.rand()
        if r < .06:
            st = reload(m, st)
        elif r < .1:
            st.reset()
            ref.reset()
            m.event('resets')
            m.close(nump(st.mean).reshape(shape), np.zeros(shape), 'reset-mean', 'after reset')
            m.close(nump(st.std).reshape(shape), np.ones(shape), 'reset-std', 'after reset')


def averages(m, rng, backend, kind):
    shape = SHAPES[rng.randint(len(SHAPES))]
    draw = stream(rng, shape, str(rng.choice(['normal', 'constant', 'normal'])))
    init = draw(1)[0] if rng.rand() < .5 else None
    start = np.zeros(shape) if init is None else init
    ini = None if init is None else arr(init, backend)
    if kind == 'ema':
        alpha = float(rng.choice([.01, .1, .5, 1.]))
        st = RunningExpWeightedAverage(shape, alpha, backend, ini)
    else:
        size = int(rng.choice([1, 2, 3, 8]))
        st = RunningAveragedWindow(shape, size, backend, ini)
    vals = [start]

    def check(where):
        if kind == 'ema':
            want = vals[0]
            for v in vals[1:]:
                want = (1 - alpha) * want + alpha * v
        else:
            want = np.mean(vals[-size:], axis=0)
        m.close(nump(st.mean).reshape(shape), want, kind + '-mean', f'{backend} {shape} {where}', **tol(backend))

    check('initially')
    for t in range(rng.randint(5, 30)):
        k = int(rng.choice([0, 1, 2, 5]))
        b = draw(max(k, 1))
        x = b[0] if k == 0 else b
        xx = arr(x, backend)
        st.update_stats(xx)
        m.eq(nump(xx), x, 'input-altered', 'the average changed the values it was shown')
        xx += 1.
        vals += list(b)
        check(f'after {len(vals) - 1} values')
        m.event(kind + '_updates')
        if kind == 'window' and len(vals) > size:
            m.event('window_full')
        m.seen(kind, backend, shape, k)
        r = rng.rand()
        if r < .06:
            st = reload(m, st)
        elif r < .1:
            if rng.rand() < .5:
                v = draw(1)[0]
                st.reset(arr(v, backend))
                vals = [v]
            else:
                st.reset()
                vals = [np.zeros(shape)]
            m.event('resets')
            check('after reset')


def preprocessor(m, rng, backend, kind, bounds):
    shape = SHAPES[rng.randint(len(SHAPES))] if bounds != 'one' else (int(rng.randint(2, 6)),)
    clip = float(rng.choice([10., 2., .5]))
    alpha = float(rng.choice([.1, .3])) if rng.rand() < .3 else 1e-32
    low = np.round(rng.randn(*shape) * rng.choice([1., 4.]) - 2., 3)
    high = low + np.round(np.exp(rng.randn(*shape)) + .1, 3)
    bounded = np.ones(shape, dtype=bool)
    if bounds == 'some':
        bounded = rng.rand(*shape) < .5
        bounded.reshape(-1)[rng.randint(bounded.size)] = True
    elif bounds == 'one':
        bounded[:] = False
        bounded[rng.randint(shape[0])] = True
    elif bounds == 'none':
        bounded[:] = False
    for i in np.argwhere(~bounded):
        i = tuple(i)
        lo, hi = [(-np.inf, np.inf), (-np.inf, high[i]), (low[i], np.inf), (-1e21, 1e21)][rng.randint(4)]
        low[i], high[i] = lo, hi
    if bounds == 'all' and rng.rand() < .3:
        low, high = np.floor(low).astype(int), np.ceil(high).astype(int) + 1
    lo0, hi0 = low.copy(), high.copy()
    if backend == 'torch' and rng.rand() < .5:
        low, high = torch.tensor(low), torch.tensor(high)
    space = Box(low, high)
    low, high = nump(low), nump(high)
    info = MDPInfo(space, Discrete(3), .9, 10, backend=backend)
    if kind == 'minmax' and bounds == 'none':
        m.raises(AssertionError, lambda: MinMaxPreprocessor(info, backend), 'minmax-without-bounds')
        m.event('mapped_minmax')
        return
    cls = MinMaxPreprocessor if kind == 'minmax' else StandardizationPreprocessor
    kw = dict(clip_obs=clip) if clip != 10. or rng.rand() < .5 else {}
    if alpha != 1e-32:
        kw['alpha'] = alpha
    pre = cls(info, backend, **kw)
    m.eq(nump(space.low), lo0, 'bounds-altered', 'the preprocessor changed the bounds of the space')
    m.eq(nump(space.high), hi0, 'bounds-altered', 'the preprocessor changed the bounds of the space')
    ref = Moments(shape, alpha)
    draw = stream(rng, shape, str(rng.choice(['normal', 'normal', 'constant'] + ['int'] * (backend == 'numpy'))))
    if kind == 'minmax':
        m.event('bounded_' + ('all' if bounded.all() else 'some'))
        m.event('bounded_one', int(bounded.sum() == 1))
    mid, half = np.zeros(shape), np.ones(shape)
    mid[bounded] = (high[bounded] * 1. + low[bounded]) / 2
    half[bounded] = (high[bounded] * 1. - low[bounded]) / 2

    def mapped(x):
        z = (x - ref.m) / ref.std
        std = np.clip(z, -clip, clip)
        if kind == 'minmax':
            y = np.where(bounded, (x - mid) / half, std)
            unclipped = bounded
        else:
            y, unclipped = std, np.zeros(shape, dtype=bool)
        m.event('clipped', int(((np.abs(z) > clip) & ~unclipped).any()))
        return y

    for t in range(rng.randint(8, 25)):
        k = int(rng.choice([0, 0, 1, 2, 7]))
        b = draw(max(k, 1))
        if rng.rand() < .3 and b.dtype.kind == 'f':
            b = b + rng.randn(*b.shape) * 8
        x = b[0] if k == 0 else b
        xx = arr(x, backend)
        if rng.rand() < .6:
            pre.update(xx)
            ref.update(b)
            m.eq(nump(xx), x, 'input-altered', f'{kind}: update changed the observation it was shown')
        y = pre(xx)
        m.eq(nump(xx), x, 'input-altered', f'{kind}: the observation handed in was changed ({bounds} bounded)')
        m.eq(tuple(y.shape), tuple(x.shape), 'mapped-shape', f'{kind} {shape}')
        m.ok(isinstance(y, torch.Tensor if backend == 'torch' else np.ndarray), 'mapped-type', str(type(y)))
        m.close(nump(y), mapped(x), 'mapped-observation', f'{kind} {backend} {shape} {bounds} bounded, step {t}', **tol(backend))
        m.event('mapped_minmax' if kind == 'minmax' else 'mapped_standard')
        m.event('mapped_batches', int(k > 0))
        m.close(nump(pre(xx)), nump(y), 'mapping-has-state', 'mapping the same observation again gave another result')
        m.seen(kind, backend, shape, bounds, k)
        if rng.rand() < .1:
            pre = reload(m, pre)


def core_stream(m, rng, kind):
    """The statistics of an agent's preprocessor are those of the observations the environment returned, each once."""
    from mushroom_rl.core import Agent, Core, Environment
    from mushroom_rl.policy import Policy

    horizon = int(rng.randint(3, 9))
    dim = int(rng.randint(1, 4))
    log = []

    class Env(Environment):
        def __init__(self):
            super().__init__(MDPInfo(Box(np.full(dim, -np.inf) if kind == 'standard' else np.array([-1.] + [-np.inf] * (dim - 1)),
                                         np.full(dim, np.inf) if kind == 'standard' else np.array([2.] + [np.inf] * (dim - 1))),
                                     Discrete(2), .9, horizon))

        def reset(self, state=None):
            self.s = rng.randn(dim)
            return self.s, {}

        def step(self, action):
            self.s = rng.randn(dim) * 2 + 1
            return self.s, 0., bool(rng.rand() < .1), {}

    class P(Policy):
        def draw_action(self, state, policy_state=None):
            log.append(np.array(state))
            return np.array([rng.randint(2)]), None

    class A(Agent):
        def fit(self, dataset):
            pass

    env = Env()
    agent = A(env.info, P())
    cls = StandardizationPreprocessor if kind == 'standard' else MinMaxPreprocessor
    pre = cls(env.info, 'numpy')
    shown = []
    inner = pre.update

    def update(obs):
        shown.append(np.array(obs))
        return inner(obs)
    pre.update = update
    agent.add_agent_preprocessor(pre)
    ds = Core(agent, env).evaluate(n_steps=int(rng.randint(5, 30)), quiet=True)
    x = np.array([np.zeros(dim)] + [s.reshape(dim) for s in shown])
    mean, sd = x.mean(0), np.sqrt((1 + ((x - x.mean(0)) ** 2).sum(0)) / len(x))
    probe = rng.randn(dim)
    want = np.clip((probe - mean) / sd, -10, 10)
    if kind != 'standard':
        want[0] = (probe[0] - .5) / 1.5
    m.close(pre(probe), want, 'core-stream', 'mapping after a run driven by Core')
    m.event('core_streams')
    m.seen(kind, dim, len(shown))


class Affine(Preprocessor):
    """user preprocessor whose map depends on how often it was updated, and on what"""

    def __init__(self, a, b):
        self.a, self.b, self.n, self.sum = a, b, 0, 0.
        self.got = []

    def __call__(self, obs):
        return self.a * obs + self.b * self.n + .01 * self.sum

    def update(self, obs):
        self.n += 1
        self.sum += float(np.asarray(obs, dtype=float).sum())
        self.got.append(np.array(obs))


def chains(m, rng, core, agent, stateful):
    """Chains of core and agent preprocessors: the dataset holds the former's output, the policy sees the latter's, in order."""
    from mushroom_rl.core import Agent, Core, Environment
    from mushroom_rl.policy import Policy
    dim, horizon = int(rng.randint(1, 4)), int(rng.randint(2, 7))
    raw, seen = [], []

    class Env(Environment):
        def __init__(self):
            super().__init__(MDPInfo(Box(-np.inf, np.inf, shape=(dim,)), Discrete(2), .9, horizon))

        def reset(self, state=None):
            raw.append(rng.randn(dim))
            return raw[-1].copy(), {}

        def step(self, action):
            raw.append(rng.randn(dim))
            return raw[-1].copy(), 0., bool(rng.rand() < .1), {}

    class P(Policy):
        def reset(self):
            return np.zeros(2) if stateful else None

        def draw_action(self, state, policy_state=None):
            seen.append(np.array(state))
            return np.array([rng.randint(2)]), None if policy_state is None else policy_state + 1

    class A(Agent):
        def fit(self, dataset):
            pass

    env = Env()
    ag = A(env.info, P((2,) if stateful else None))
    cs = [Affine(float(rng.uniform(.5, 2)), float(rng.randn())) for _ in range(core)]
    ps = [Affine(float(rng.uniform(.5, 2)), float(rng.randn())) for _ in range(agent)]
    twins = [Affine(p.a, p.b) for p in cs]
    for p in cs:
        ag.add_core_preprocessor(p)
    for p in ps:
        ag.add_agent_preprocessor(p)
    c = Core(ag, env)
    for _ in range(2):
        raw.clear(), seen.clear()
        ds = c.evaluate(n_steps=int(rng.randint(3, 25)), quiet=True)
        last, st, nx = np.asarray(ds.last), np.asarray(ds.state), np.asarray(ds.next_state)
        # the stream of raw observations, in order: one for every reset, one for every step
        it = iter(raw)

        def feed():
            x = next(it)
            for t in twins:
                t.update(x)
                x = t(x)
            return x
        cur = None
        for i in range(len(ds)):
            cur = feed() if cur is None else cur
            m.close(st[i], cur, 'core-preprocessed-state', f'step {i}, {core} core preprocessors', rtol=1e-7, atol=1e-7)
            x = cur
            for p in ps:
                x = p.a * x + p.b * p.n + .01 * p.sum
            m.close(seen[i], x, 'state-shown-to-the-policy', f'step {i}, {agent} agent preprocessors, stateful {stateful}', rtol=1e-7, atol=1e-7)
            cur = feed()
            m.close(nx[i], cur, 'core-preprocessed-next-state', f'step {i}', rtol=1e-7, atol=1e-7)
            m.event('chained')
            if last[i]:
                cur = None
        m.eq(sum(p.n for p in ps), 0, 'agent-preprocessor-updated-outside-fit')
    m.seen('chains', core, agent, stateful)


def cases(tier, rng):
    for core in (0, 1, 2, 3):
        for agent in (0, 1, 2, 3):
            for stateful in (False, True):
                for _ in range(2 if tier == 'quick' else 12):
                    yield 'chains', dict(core=core, agent=agent, stateful=stateful)
    n = 1 if tier == 'quick' else 8
    for _ in range(25 * n):
        for backend in ('numpy', 'torch'):
            for catchup in (False, False, True):
                yield 'standardization', dict(backend=backend, catchup=catchup)
            for kind in ('ema', 'window'):
                yield 'averages', dict(backend=backend, kind=kind)
            for bounds in ('all', 'some', 'one', 'none'):
                yield 'preprocessor', dict(backend=backend, kind='minmax', bounds=bounds)
            for _ in range(3):
                yield 'preprocessor', dict(backend=backend, kind='standard', bounds='none')
    for _ in range(15 * n):
        for kind in ('standard', 'minmax'):
            yield 'core_stream', dict(kind=kind)
