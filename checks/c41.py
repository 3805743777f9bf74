"""C41: movement primitives and policy vectors play out their trajectories."""
import os
import tempfile

import numpy as np
from scipy.stats import chi2

from mushroom_rl.algorithms.policy_search import PGPE, REPS, RWR
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Core, Environment, MDPInfo, VectorCore, VectorizedEnvironment
from mushroom_rl.distributions import GaussianDiagonalDistribution
from mushroom_rl.features import Features
from mushroom_rl.features.basis import GaussianRBF
from mushroom_rl.policy import DMP, DeterministicPolicy, Policy, ProMP, VectorPolicy
from mushroom_rl.rl_utils.optimizers import AdaptiveOptimizer
from mushroom_rl.rl_utils.spaces import Box

PROPERTY = 'C41'
RULE = ('movement primitives are rolled out directly and inside black-box optimization runs on one or several environments; every recorded action and policy state is '
        'compared with the phase recurrence, the explicit Euler trajectory of the published equations and the parameters in force for that episode, and noisy actions '
        'are whitened by the stated mean and covariance; policy vectors are compared entry by entry with the single policies they repeat')
NEED = {'promp-step': 2000, 'dmp-step': 3000, 'density': 300, 'goal-change': 20, 'saved': 30, 'episode': 300, 'parallel-episode': 150, 'parallel-step': 1500,
        'vector-step': 500, 'masked-reset': 60, 'noise-test': 10, 'converged': 10}


class Track(Environment):
    """observes the given position; episodes end after a scripted number of steps"""
    def __init__(self, n, ends, horizon):
        box = Box(-np.inf * np.ones(2), np.inf * np.ones(2), data_type=float)
        super().__init__(MDPInfo(box, Box(-np.inf * np.ones(n), np.inf * np.ones(n), data_type=float), .95, horizon))
        self.ends, self.k, self.t = ends, -1, 0

    def reset(self, state=None):
        self.k += 1
        self.t = 0
        return np.array([self.k, 0.]), {}

    def step(self, a):
        self.t += 1
        e = self.ends[self.k % len(self.ends)]
        return np.array([self.k, self.t], float), -float(np.sum(np.square(a))), bool(e and self.t >= e), {}


class VecTrack(VectorizedEnvironment):
    def __init__(self, n_envs, n, ends, horizon):
        box = Box(-np.inf * np.ones(3), np.inf * np.ones(3), data_type=float)
        super().__init__(MDPInfo(box, Box(-np.inf * np.ones(n), np.inf * np.ones(n), data_type=float), .95, horizon), n_envs)
        self.ends = ends
        self.k, self.t = -np.ones(n_envs, int), np.zeros(n_envs, int)

    def _obs(self):
        return np.stack([np.arange(self._n_envs), self.k, self.t], 1).astype(float)

    def reset_all(self, env_mask, state=None):
        mask = np.asarray(env_mask, bool)
        self.k[mask] += 1
        self.t[mask] = 0
        return self._obs(), [{}] * self._n_envs

    def step_all(self, env_mask, action):
        mask = np.asarray(env_mask, bool)
        self.t[mask] += 1
        e = np.array([self.ends[(i + k) % len(self.ends)] for i, k in enumerate(self.k)])
        return self._obs(), -np.sum(np.square(action), 1), mask & (e > 0) & (self.t >= e), [{}] * self._n_envs


def cov(rng, n):
    A = rng.randn(n, n)
    return A @ A.T * .1 + np.diag(rng.uniform(.05, .3, n))


def promp(rng, n, sigma=None, periodic=False, duration=None):
    k = int(rng.randint(2, 7))
    duration = int(rng.randint(1, 13)) if duration is None else duration
    phi = Features(basis_list=GaussianRBF.generate([k], [0.], [1.5 if periodic else 1.]))
    mu = Regressor(LinearApproximator, input_shape=(phi.size,), output_shape=(n,))
    mu.set_weights(rng.randn(mu.weights_size))
    return ProMP(mu, phi, duration, sigma=sigma, periodic=periodic), phi, duration


def promp_mean(phi, w, n, t, d, periodic):
    z = (t if periodic else min(t, d)) / d
    return w.reshape(n, -1) @ np.asarray(phi(np.array([z]))).ravel()


def dmp(rng, n, scale=3.):
    phi = Features(basis_list=GaussianRBF.generate([3] * n, [0.] * n, [1.] * n))
    mu = Regressor(LinearApproximator, input_shape=(phi.size,), output_shape=(n,))
    mu.set_weights(rng.randn(mu.weights_size) * scale)
    vec = lambda lo, hi: rng.uniform(lo, hi, n) if rng.rand() < .5 else np.full(n, rng.uniform(lo, hi))
    av, az = vec(5., 30.), vec(5., 30.)
    p = dict(goal=rng.uniform(.5, 2., n) * rng.choice([-1, 1], n), dt=float(rng.choice([.001, .01, .02])), tau=float(rng.uniform(.5, 2.)),
             alpha_v=av, beta_v=av / rng.uniform(3, 6), alpha_z=az, beta_z=az / rng.uniform(3, 6))
    return DMP(mu, phi, **p), phi, p


class DMPRef:
    def __init__(self, phi, p, n, w):
        self.phi, self.p, self.n, self.w = phi, p, n, w
        self.g = np.array(p['goal'])
        self.x, self.v, self.y, self.z = (np.zeros(n) for _ in range(4))

    def step(self):
        p = self.p
        f = self.w.reshape(self.n, -1) @ np.asarray(self.phi(self.x / self.g)).ravel() * self.v
        dv = p['alpha_v'] * (p['beta_v'] * (self.g - self.x) - self.v) / p['tau']
        dx = self.v / p['tau']
        dz = p['alpha_z'] * (p['beta_z'] * (self.g - self.y) - self.z) / p['tau']
        dy = (self.z + f) / p['tau']
        self.v, self.x, self.z, self.y = (a + b * p['dt'] for a, b in ((self.v, dv), (self.x, dx), (self.z, dz), (self.y, dy)))
        return self.y.copy()


def roundtrip(m, pol):
    with tempfile.TemporaryDirectory() as d:
        pol.save(os.path.join(d, 'p.msh'))
        m.event('saved')
        return Policy.load(os.path.join(d, 'p.msh'))


def promp_direct(m, rng, n, noisy, periodic):
    np.random.seed(int(rng.randint(1 << 30)))
    S = cov(rng, n) if noisy else None
    pol, phi, d = promp(rng, n, S, periodic)
    w = pol.get_weights().copy()
    m.eq(pol.weights_size, w.size, 'promp-weights-size')
    m.eq(pol.policy_state_shape, (1,), 'promp-state-shape')
    state = rng.randn(3)
    held, white = [], []
    for ep in range(3):
        ps = pol.reset()
        m.seen('promp', n, d, noisy, periodic)
        stop = int(rng.randint(1, 2 * d + 4))
        for t in range(stop):
            before = np.array(ps, float).copy()
            m.eq(before.ravel().tolist(), [float(t if periodic else min(t, d))], 'promp-clock', f'step {t} of duration {d} periodic={periodic}')
            mean = promp_mean(phi, w, n, t, d, periodic)
            a, nxt = pol.draw_action(state, ps)
            m.event('promp-step')
            m.eq(np.array(ps, float).ravel().tolist(), before.ravel().tolist(), 'promp-clock-in-place')
            m.eq(np.shape(a), (n,), 'promp-action-shape')
            m.eq(np.shape(nxt), (1,), 'promp-next-state-shape')
            held.append((ps, before))
            if S is None:
                m.close(a, mean, 'promp-mean', f't={t} d={d} periodic={periodic}', rtol=1e-9, atol=1e-12)
                m.eq(float(pol(state, a, ps)), 1., 'promp-deterministic-density')
                m.eq(float(pol(state, a + 1e-3, ps)), 0., 'promp-deterministic-density')
            else:
                white.append(np.linalg.solve(np.linalg.cholesky(S), a - mean))
                q = a + rng.randn(n) * .3
                want = np.exp(-.5 * (q - mean) @ np.linalg.solve(S, q - mean)) / np.sqrt(np.linalg.det(2 * np.pi * S))
                m.close(float(pol(state, q, ps)), want, 'promp-density', rtol=1e-8, atol=1e-14)
            m.event('density')
            ps = nxt
        if ep == 1:
            pol = roundtrip(m, pol)
            m.eq(pol.get_weights(), w, 'promp-saved-weights')
        elif ep == 0:
            w = rng.randn(w.size)
            pol.set_weights(w.copy())
            m.eq(pol.get_weights(), w, 'promp-set-weights')
    for ps, before in held:
        m.eq(np.array(ps, float).ravel().tolist(), before.ravel().tolist(), 'promp-recorded-clock-changed')


def promp_noise(m, rng, n, N):
    """whitened samples at one phase have zero mean and identity covariance"""
    np.random.seed(int(rng.randint(1 << 30)))
    S = cov(rng, n)
    pol, phi, d = promp(rng, n, S, False)
    t = int(rng.randint(0, d + 1))
    ps = pol.reset()
    for _ in range(t):
        ps = pol.draw_action(np.zeros(1), ps)[1]
    mean = promp_mean(phi, pol.get_weights(), n, t, d, False)
    L = np.linalg.inv(np.linalg.cholesky(S))
    X = np.array([L @ (pol.draw_action(np.zeros(1), np.array(ps))[0] - mean) for _ in range(N)])
    m.event('noise-test')
    a = 1e-10
    m.ok(N * np.sum(X.mean(0) ** 2) < chi2.isf(a, n), 'promp-noise-mean', f'{X.mean(0)}')
    for i in range(n):
        q = np.sum(X[:, i] ** 2)
        m.ok(chi2.ppf(a, N) < q < chi2.isf(a, N), 'promp-noise-variance', f'whitened variance {q / N} dim {i}')
        for j in range(i):
            # sum of products of independent standard normals, normal approximation
            m.ok(abs(np.sum(X[:, i] * X[:, j])) / np.sqrt(N) < 7., 'promp-noise-correlation')


def dmp_direct(m, rng, n):
    pol, phi, p = dmp(rng, n)
    w = pol.get_weights().copy()
    state = rng.randn(2)
    acts = []
    for ep in range(3):
        pol.reset()
        ref = DMPRef(phi, p, n, w)
        ref.g = np.array(pol.get_goal(state), float)
        m.seen('dmp', n, p['dt'])
        for t in range(int(rng.randint(20, 120))):
            if rng.rand() < .01:
                g = rng.uniform(.5, 2., n) * rng.choice([-1, 1], n)
                pol.set_goal(g.copy())
                ref.g = g
                m.event('goal-change')
            if rng.rand() < .01:
                pol = roundtrip(m, pol)
            a, ns = pol.draw_action(state, None)
            want = ref.step()
            m.event('dmp-step')
            m.ok(ns is None, 'dmp-policy-state')
            m.close(a, want, 'dmp-trajectory', f'step {t} of episode {ep}', rtol=1e-7, atol=1e-10)
            m.eq(float(pol(state, a, None)), 1., 'dmp-density')
            m.eq(float(pol(state, a + 1., None)), 0., 'dmp-density')
            acts.append((a, np.array(a, copy=True)))
        w = rng.randn(w.size)
        pol.set_weights(w.copy())
    for a, c in acts:
        m.eq(np.asarray(a), c, 'dmp-recorded-action-changed')


def dmp_converges(m, rng, n):
    """whatever the weights, the movement ends at the goal"""
    pol, phi, p = dmp(rng, n, scale=2.)
    rate = min(min(p['alpha_v']), min(p['alpha_z'])) / p['tau']
    # slowest mode of z'' = a(b(g-y)-z): real part a/2 (or slower root if overdamped)
    slow = min(np.min(np.real(-np.roots([1, a, a * b]))) for al, be in (('alpha_v', 'beta_v'), ('alpha_z', 'beta_z')) for a, b in zip(p[al], p[be])) / p['tau']
    steps = int(min(40 / slow / p['dt'], 40000))
    if steps * slow * p['dt'] < 25 or rate * p['dt'] > .5:
        return
    pol.reset()
    for _ in range(steps):
        a, _ = pol.draw_action(None, None)
    m.event('converged')
    m.close(a, p['goal'], 'dmp-goal', f'after {steps} steps', rtol=1e-4, atol=1e-4)


def _algo(rng, info, pol, mu0, std0):
    dist = GaussianDiagonalDistribution(mu0, std0)
    k = int(rng.randint(3))
    if k == 0:
        return PGPE(info, dist, pol, AdaptiveOptimizer(eps=.01))
    return REPS(info, dist, pol, eps=.5) if k == 1 else RWR(info, dist, pol, beta=.5)


def _spied(pol, log):
    """records the parameters set on the policy, on this very object"""
    orig = pol.set_weights

    def set_weights(w):
        log.append(np.array(w, float).copy())
        return orig(w)
    pol.set_weights = set_weights
    return pol


def in_core(m, rng, kind, periodic, fits):
    """sequential black-box optimization: every episode is the movement of the parameters drawn for it, from its beginning"""
    np.random.seed(int(rng.randint(1 << 30)))
    n = int(rng.randint(1, 3))
    ends = [int(x) for x in rng.choice([0, 1, 2, 3, 5, 9, 14], 5)]
    env = Track(n, ends, int(rng.randint(4, 16)))
    if kind == 'promp':
        pol, phi, d = promp(rng, n, None, periodic)
    else:
        pol, phi, p = dmp(rng, n, 1.)
    log = []
    _spied(pol, log)
    ag = _algo(rng, env.info, pol, rng.randn(pol.weights_size), np.full(pol.weights_size, .3))
    per = int(rng.randint(2, 6))
    done = [0]

    def check(ds):
        s, a = np.array(ds.state), np.array(ds.action)
        last = np.array(ds.last)
        e0 = 0
        th = [np.array(x, float) for x in ds.theta_list]
        m.eq(len(th), int(last.sum()), 'one-parameter-vector-per-episode')
        for e, end in enumerate(np.flatnonzero(last)):
            w = th[e]
            m.event('episode')
            if kind == 'dmp':
                ref = DMPRef(phi, p, n, w)
            for t, i in enumerate(range(e0, end + 1)):
                m.eq(float(s[i, 1]), float(t), 'episode-alignment')
                if kind == 'promp':
                    m.eq(np.array(ds.policy_state[i], float).ravel().tolist(), [float(t if periodic else min(t, d))], 'recorded-policy-state')
                    m.eq(np.array(ds.policy_next_state[i], float).ravel().tolist(), [float(t + 1 if periodic else min(t + 1, d))], 'recorded-policy-next-state')
                    want = promp_mean(phi, w, n, t, d, periodic)
                else:
                    want = ref.step()
                m.close(a[i], want, 'episode-trajectory', f'{kind} episode {e} step {t}', rtol=1e-7, atol=1e-9)
            e0 = end + 1
        done[0] += len(th)
    core = Core(ag, env, callbacks_fit=[check])
    core.learn(n_episodes=per * fits, n_episodes_per_fit=per, quiet=True)
    m.eq(done[0], per * fits, 'episodes-compared')
    ds = core.evaluate(n_episodes=per, quiet=True)
    check(ds)


def in_vector_core(m, rng, kind, periodic, fits):
    """parallel black-box optimization: the end of one environment's episode does not disturb the movement of the others"""
    np.random.seed(int(rng.randint(1 << 30)))
    n, ne = int(rng.randint(1, 3)), int(rng.randint(2, 6))
    ends = [int(x) for x in rng.choice([0, 1, 2, 3, 5, 9, 14], 7)]
    env = VecTrack(ne, n, ends, int(rng.randint(4, 16)))
    if kind == 'promp':
        pol, phi, d = promp(rng, n, None, periodic)
    else:
        pol, phi, p = dmp(rng, n, 1.)
    ag = _algo(rng, env.info, pol, rng.randn(pol.weights_size), np.full(pol.weights_size, .3))
    per = int(rng.randint(ne, 3 * ne))
    orig, log = ag.episode_start_vectorized, []

    def started(initial_states, episode_info, start_mask):
        ps, th = orig(initial_states, episode_info, start_mask)
        for i in np.flatnonzero(np.asarray(start_mask)):
            log.append((int(i), int(env.k[i]), np.array(th[i], float).copy()))
        return ps, th
    ag.episode_start_vectorized = started

    def check(ds):
        s, a = np.array(ds.state), np.array(ds.action)
        par = {(i, k): w for i, k, w in log}
        refs = {}
        for j in range(len(s)):
            i, k, t = (int(x) for x in s[j])
            w = par.get((i, k))
            m.ok(w is not None, 'parallel-episode-parameters', f'environment {i} episode {k}')
            if w is None:
                continue
            m.event('parallel-step')
            if t == 0:
                m.event('parallel-episode')
            if kind == 'promp':
                m.eq(np.array(ds.policy_state[j], float).ravel().tolist(), [float(t if periodic else min(t, d))], 'parallel-policy-state')
                m.eq(np.array(ds.policy_next_state[j], float).ravel().tolist(), [float(t + 1 if periodic else min(t + 1, d))], 'parallel-policy-next-state')
                want = promp_mean(phi, w, n, t, d, periodic)
            else:
                if t == 0:
                    refs[i] = (k, 0, DMPRef(phi, p, n, w))
                if i not in refs or refs[i][:2] != (k, t):
                    continue                # the beginning of this episode is in another block
                want = refs[i][2].step()
                refs[i] = (k, t + 1, refs[i][2])
            m.close(a[j], want, 'parallel-trajectory', f'{kind} environment {i} episode {k} step {t}', rtol=1e-7, atol=1e-9)
    fit = ag.fit

    def observed_fit(ds):
        check(ds)
        return fit(ds)
    ag.fit = observed_fit
    core = VectorCore(ag, env)
    core.learn(n_episodes=per * fits, n_episodes_per_fit=per, quiet=True)
    check(core.evaluate(n_episodes=int(rng.randint(1, 2 * ne)), quiet=True))


def vector(m, rng, kind, n_envs):
    """a policy vector is the independent policies it was built from"""
    np.random.seed(int(rng.randint(1 << 30)))
    n = int(rng.randint(1, 3))
    if kind == 'promp':
        base, phi, d = promp(rng, n, None, bool(rng.randint(2)))
    elif kind == 'dmp':
        base, phi, p = dmp(rng, n)
    else:
        mu = Regressor(LinearApproximator, input_shape=(3,), output_shape=(n,))
        mu.set_weights(rng.randn(mu.weights_size))
        base = DeterministicPolicy(mu)
    from copy import deepcopy
    w0 = base.get_weights().copy()
    vec = VectorPolicy(base, n_envs)
    solo = [deepcopy(base) for _ in range(n_envs)]
    stateful = base.policy_state_shape is not None
    m.eq(vec.policy_state_shape, base.policy_state_shape, 'vector-state-shape')
    ps = vec.reset()
    sp = [s.reset() for s in solo]

    def weights():
        m.eq(len(vec), len(solo), 'vector-length')
        m.eq(np.array(vec.get_weights()), np.array([s.get_weights() for s in solo]), 'vector-weights')
        m.eq(base.get_weights(), w0, 'vector-changes-its-base')
        m.eq(tuple(vec.weights_size), (len(solo), base.weights_size), 'vector-weights-size')
    weights()
    for t in range(40):
        u = rng.rand()
        if u < .08:
            W = rng.randn(len(solo), w0.size)
            vec.set_weights(W.copy())
            for s, w in zip(solo, W):
                s.set_weights(w.copy())
            weights()
        elif u < .16:
            W = vec.get_weights()
            W += 1.                    # a handed-out table belongs to the caller
            weights()
        elif u < .3:
            mask = rng.rand(len(solo)) < .5
            new = vec.reset(mask)
            m.event('masked-reset')
            for i in np.flatnonzero(mask):
                sp[i] = solo[i].reset()
                if stateful:
                    m.eq(np.array(new[i], float).ravel(), np.array(sp[i], float).ravel(), 'vector-masked-reset')
                    ps[i] = new[i]
        elif u < .36:
            k = int(rng.randint(1, 7))
            old = len(solo)
            vec.set_n(k)
            solo = solo[:k] + [deepcopy(solo[0]) for _ in range(k - old)]
            m.event('resized')
            ps = vec.reset()
            sp = [s.reset() for s in solo]
            weights()
        S = rng.randn(len(solo), 3)
        keep = None if ps is None else np.array(ps, copy=True)
        a, nps = vec.draw_action(S, ps)
        if keep is not None:
            m.eq(np.array(ps), keep, 'vector-changes-policy-state')
        want = [s.draw_action(S[i], sp[i]) for i, s in enumerate(solo)]
        m.event('vector-step')
        m.close(np.array(a), np.array([x[0] for x in want]), 'vector-action', f'{kind} step {t}', rtol=1e-9, atol=1e-12)
        sp = [x[1] for x in want]
        if stateful:
            m.eq(np.array(nps, float), np.array(sp, float), 'vector-next-state')
            ps = np.array(nps)
        else:
            m.ok(nps is None, 'vector-next-state')
            ps = None
    flat = vec.get_flat_policy()
    m.eq(flat.get_weights(), solo[0].get_weights(), 'vector-flat-policy')


def cases(tier, rng):
    k = 1 if tier == 'quick' else 6
    for _ in range(30 * k):
        for noisy in (0, 1):
            for periodic in (0, 1):
                yield 'promp_direct', dict(n=int(rng.randint(1, 4)), noisy=bool(noisy), periodic=bool(periodic))
    for _ in range(12 * k):
        yield 'promp_noise', dict(n=int(rng.randint(1, 4)), N=4000)
    for _ in range(24 * k):
        yield 'dmp_direct', dict(n=int(rng.randint(1, 3)))
    for _ in range(16 * k):
        yield 'dmp_converges', dict(n=int(rng.randint(1, 3)))
    for _ in range(6 * k):
        for kind, per in (('promp', False), ('promp', True), ('dmp', False)):
            yield 'in_core', dict(kind=kind, periodic=per, fits=5)
            yield 'in_vector_core', dict(kind=kind, periodic=per, fits=4)
    for _ in range(6 * k):
        for kind in ('promp', 'dmp', 'linear'):
            yield 'vector', dict(kind=kind, n_envs=int(rng.randint(1, 6)))
