import gc, os, time
import multiprocessing
import numpy as np
from mushroom_rl.core import Environment, MDPInfo, MultiprocessEnvironment, VectorCore
from mushroom_rl.rl_utils.spaces import Box, Discrete
from vlib.stubs import Log
from checks.c03 import VecPolicy, VecAgent

PROPERTY = 'C04'
RULE = ('random sequences of masked resets (with and without imposed states), steps, seeding and rendering on 2..8 worker '
        'processes, each command carrying a per-worker delay that is slept in the worker; the same commands are replayed '
        'on environments in this process. Distinct by command sequence and by the order in which workers finished')
NEED = dict(worker_steps=1500, worker_resets=300, delayed_commands=1000, inactive_workers=500, reorderings=200,
            imposed_states=80, rendered_frames=60, seeds=40, workers_closed=60, library_env_steps=200, vector_core_runs=6)
CASE_LIMIT = 240


class Chain(Environment):
    """Deterministic given its command history and seed; every reply depends on everything received so far."""

    def __init__(self, horizon=50, slow=0., built=0):
        self._rng = np.random.RandomState(3)
        self._x = np.zeros(3)
        self._n = [0, 0, 0]
        self._built = built
        super().__init__(MDPInfo(Box(-1e9, 1e9, shape=(3,)), Box(-1e9, 1e9, shape=(3,)), .9, horizon))

    @staticmethod
    def generate(horizon=50, built=0):
        return Chain(horizon, built=built + 1)

    def reset(self, state=None):
        self._n[0] += 1
        if state is None:
            self._x = np.array([self._n[0], self._rng.randint(1000), self._n[1] + 10. * self._built])
        else:
            assert np.shape(state) == (3,)
            time.sleep(min(float(state[2]), 8.) * 1e-3)
            self._x = np.array(state, dtype=float)
        return self._x.copy(), dict(n=list(self._n)[0], t=time.monotonic())

    def step(self, action):
        self._n[1] += 1
        assert np.shape(action) == (3,)
        time.sleep(min(float(action[2]), 8.) * 1e-3)
        self._x = (self._x * 7 + action * 3 + self._rng.randint(100)) % 9973
        return self._x.copy(), float(self._x.sum()) + .5, bool(int(self._x[0]) % 5 == 0), \
            dict(n=self._n[1], a=float(action[0]), t=time.monotonic())

    def render(self, record=False):
        self._n[2] += 1
        return np.full((2, 2, 3), (int(self._x[0]) + self._n[2] // 100) % 255, dtype=np.uint8) if record else None

    def seed(self, seed):
        self._rng = np.random.RandomState(seed)

    def stop(self):
        self._n[2] += 100


def _delays(rng, n):
    k = rng.randint(4)
    if k == 0:
        return np.zeros(n)
    if k == 1:
        return rng.randint(0, 4, n).astype(float)
    if k == 2:
        return np.arange(n)[::-1] * 1.5
    d = np.zeros(n)
    d[rng.randint(n)] = 6
    return d


def history(m, rng, n, ops, generator):
    before = {p.pid for p in multiprocessing.active_children()}
    if generator:
        env = MultiprocessEnvironment.generate(Chain, horizon=9, n_envs=n)
        ref = [Chain.generate(horizon=9) for _ in range(n)]
    else:
        env = MultiprocessEnvironment(Chain, 9, n_envs=n)
        ref = [Chain(9) for _ in range(n)]
    try:
        m.eq(env.number, n, 'number-of-environments')
        m.eq(env.info.horizon, 9, 'info-horizon')
        workers = [p for p in multiprocessing.active_children() if p.pid not in before]
        m.eq(len(workers), n, 'one-worker-per-environment')
        states = [None] * n
        orders = []
        for k in range(ops):
            op = rng.choice(['step', 'step', 'step', 'reset', 'resetto', 'render', 'seed', 'stop']) if k else 'reset'
            mask = rng.rand(n) < (.7 if k else 2)
            if op in ('reset', 'resetto'):
                s0 = None
                if op == 'resetto':
                    s0 = np.round(rng.randn(n, 3) * 100)
                    s0[:, 2] = _delays(rng, n)
                obs, infos = env.reset_all(mask, s0)
                for i in range(n):
                    if mask[i]:
                        o, inf = ref[i].reset(None if s0 is None else s0[i])
                        states[i] = o
                        m.eq(infos[i]['n'], inf['n'], 'reset-info')
                        m.event('worker_resets')
                        m.event('imposed_states', int(s0 is not None))
                    else:
                        m.eq(infos[i], {}, 'reset-info-of-inactive')
                        m.event('inactive_workers')
                m.eq(obs, np.array(states), 'reset-observation', f'{op} {mask}')
            elif op == 'step':
                a = np.round(rng.randn(n, 3) * 50)
                a[:, 2] = _delays(rng, n)
                m.event('delayed_commands', int((a[:, 2][mask] > 0).sum()))
                given = a.copy()
                obs, r, ab, infos = env.step_all(mask, a)
                m.eq(a, given, 'action-modified')
                ts = []
                for i in range(n):
                    if mask[i]:
                        o, rr, aa, inf = ref[i].step(_Q(a[i]))
                        states[i] = o
                        m.eq(r[i], rr, 'step-reward', f'worker {i}')
                        m.eq(bool(ab[i]), aa, 'step-absorbing', f'worker {i}')
                        m.eq([infos[i]['n'], infos[i]['a']], [inf['n'], inf['a']], 'step-info', f'worker {i}')
                        ts.append((infos[i]['t'], i))
                        m.event('worker_steps')
                    else:
                        m.ok(not ab[i], 'absorbing-of-inactive', f'worker {i}')
                        m.eq(infos[i], {}, 'step-info-of-inactive')
                        m.event('inactive_workers')
                order = [i for _, i in sorted(ts)]
                if order != sorted(order):
                    m.event('reorderings')
                orders.append(order)
                m.eq(obs, np.array(states), 'step-observation', f'mask {mask}')
                obs[:] = -1                          # the caller may use its arrays freely
            elif op == 'render':
                f = env.render_all(mask, record=True)
                w = [ref[i].render(record=True) for i in range(n) if mask[i]]
                m.eq(len(f), len(w), 'number-of-frames')
                if w:
                    m.eq(f, np.array(w), 'frames')
                m.event('rendered_frames', len(w))
            elif op == 'seed':
                s = int(rng.randint(1000))
                env.seed(s)
                for e in ref:
                    e.seed(s)
                m.event('seeds')
            elif op == 'stop':
                env.stop()
                for e in ref:
                    e.stop()
                m.event('stops')
        m.seen(n, ops, orders)
        m.sample(workers=n, ops=ops, finish_orders=orders[:4])
    finally:
        del env
        gc.collect()


class _Q(np.ndarray):
    """Action whose delay component is only slept in the worker."""
    def __new__(cls, a):
        return np.asarray(a).view(cls)

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)) and k == 2:
            return 0.
        return super().__getitem__(k)


def cleanup(m, rng, n, moved):
    """After the last reference is gone no worker process is left."""
    before = {p.pid for p in multiprocessing.active_children()}
    env = MultiprocessEnvironment(Chain, 9, n_envs=n)
    procs = [p for p in multiprocessing.active_children() if p.pid not in before]
    pids = [p.pid for p in procs]
    m.eq(len(pids), n, 'one-worker-per-environment')
    if moved:
        env.reset_all(np.ones(n, dtype=bool))
        env.step_all(np.arange(n) % 2 == 0, np.zeros((n, 3)))
    if moved == 2:
        env.stop()
    del env
    gc.collect()
    t0 = time.time()
    while time.time() - t0 < 20 and any(p.is_alive() for p in procs):
        time.sleep(.02)
    m.ok(not any(p.is_alive() for p in procs), 'worker-left-running', f'{[p.is_alive() for p in procs]}')
    m.event('workers_closed', n)


def library_env(m, rng, name, n, steps):
    from mushroom_rl.environments import CartPole, InvertedPendulum, Segway, LQR
    cls, args = dict(CartPole=(CartPole, {}), InvertedPendulum=(InvertedPendulum, {}), Segway=(Segway, {}),
                     LQR=(LQR, dict(dimensions=3)))[name]
    gen = name == 'LQR'
    env = MultiprocessEnvironment.generate(cls, n_envs=n, **args) if gen else MultiprocessEnvironment(cls, n_envs=n, **args)
    ref = [cls.generate(**args) if gen else cls(**args) for _ in range(n)]
    d = env.info.observation_space.shape[0]
    s0 = rng.randn(n, len(ref[0].reset()[0])) * .1
    obs, _ = env.reset_all(np.ones(n, dtype=bool), s0.copy())
    want = np.array([ref[i].reset(s0[i].copy())[0] for i in range(n)])
    m.eq(obs, want, 'library-reset', name)
    for k in range(steps):
        mask = rng.rand(n) < .8
        if isinstance(env.info.action_space, Discrete):
            a = rng.randint(0, env.info.action_space.n, (n, 1))
        else:
            a = rng.randn(n, env.info.action_space.shape[0])
        obs, r, ab, inf = env.step_all(mask, a)
        for i in range(n):
            if mask[i]:
                if name in ('CartPole', 'InvertedPendulum'):
                    # own noise per process: only routing of shape/finite values is decided here
                    m.ok(np.all(np.isfinite(obs[i])), 'library-observation-finite', name)
                else:
                    o, rr, aa, _ = ref[i].step(a[i])
                    want[i] = o
                    m.close(obs[i], o, 'library-observation', name)
                    m.close(r[i], rr, 'library-reward', name)
                    m.eq(bool(ab[i]), bool(aa), 'library-absorbing', name)
                m.event('library_env_steps')
            elif name not in ('CartPole', 'InvertedPendulum'):
                m.close(obs[i], want[i], 'library-inactive-touched', name)


def in_core(m, rng, n, budget):
    """A parallel run through the worker processes gives the histories of n independent environments."""
    env = MultiprocessEnvironment(Chain, 6, n_envs=n)
    log = Log()
    agent = VecAgent(env.info, VecPolicy(n, log, 'numpy', False), log, False, 'numpy')
    ds = VectorCore(agent, env).evaluate(**budget, quiet=True)
    acts = [e['action'] for e in log.of('draw')]
    # regroup the flat dataset into trajectories and replay each on a fresh environment
    i = 0
    L = len(ds)
    ref = {}
    while i < L:
        w = int(ds.action[i][1])                    # the action carries the index of the environment it was drawn for
        e = ref.setdefault(w, Chain(6))
        o, _ = e.reset()
        m.eq(ds.state[i], o, 'core-initial-observation', f'worker {w}')
        while True:
            m.eq(int(ds.action[i][1]), w, 'core-trajectory-mixed')
            m.eq(ds.action[i][2], ds.state[i][0], 'core-action-routing')
            o, r, ab, _ = e.step(_Q(ds.action[i]))
            m.eq(ds.next_state[i], o, 'core-next-observation', f'worker {w}')
            m.eq(ds.reward[i], r, 'core-reward')
            m.eq(bool(ds.absorbing[i]), ab, 'core-absorbing')
            i += 1
            if ds.last[i - 1] or i == L:
                break
        m.event('worker_steps')
    m.event('vector_core_runs')
    m.seen(n, ds.state)


def cases(tier, rng):
    q = tier == 'quick'
    for c in range(130 if q else 1000):
        yield history, dict(n=int(rng.randint(2, 9)), ops=int(rng.randint(10, 40)), generator=bool(rng.rand() < .4))
    for c in range(30 if q else 120):
        yield cleanup, dict(n=int(rng.randint(2, 7)), moved=int(rng.randint(3)))
    for name in ('CartPole', 'InvertedPendulum', 'Segway', 'LQR'):
        for c in range(1 if q else 8):
            yield library_env, dict(name=name, n=int(rng.randint(2, 5)), steps=30)
    for c in range(8 if q else 60):
        b = dict(n_episodes=int(rng.randint(1, 15))) if rng.rand() < .5 else dict(n_steps=int(rng.randint(5, 50)))
        yield in_core, dict(n=int(rng.randint(2, 6)), budget=b)
