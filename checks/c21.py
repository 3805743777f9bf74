"""C21: policy search."""
import copy
import numpy as np
import torch
from scipy.optimize import brentq
from mushroom_rl.core import Core, VectorCore, Environment, VectorizedEnvironment, MDPInfo
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.rl_utils.optimizers import Optimizer, SGDOptimizer, AdaptiveOptimizer, AdamOptimizer
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator, TorchApproximator
from mushroom_rl.policy import (GaussianPolicy, DiagonalGaussianPolicy, StateStdGaussianPolicy, StateLogStdGaussianPolicy, DeterministicPolicy)
from mushroom_rl.algorithms.policy_search.black_box_optimization import ContextBuilder
from mushroom_rl.distributions.torch_distribution import AbstractGaussianTorchDistribution
from mushroom_rl.algorithms.policy_search import REINFORCE, GPOMDP, eNAC, PGPE, RWR, REPS, ConstrainedREPS, MORE, ePPO
from mushroom_rl.rl_utils.parameters import Parameter, LinearParameter
from checks.c19 import spd, seed, whitened, logpdf, D
from checks.c20 import build, unpack, kl

PROPERTY = 'C21'
RULE = ('a stochastic continuous task with random episode lengths (terminal and cut), every policy-gradient method with every '
        'differentiable policy and every black-box method with every distribution it accepts, driven through the interaction loops; the '
        'episodes recorded by the environment itself are used to recompute each update')
ASSUMPTIONS = ['REPS-type fits are checked with enough effective samples for a non-singular covariance']
NEED = dict(gradient_fits=60, gradient_episodes=300, black_box_fits=150, episodes=3000, theta_steps=10000, divergence_active=30, more_fits=10,
            proximal_steps=80, deterministic_episodes=60, vectorized_episodes=300, unfinished_blocks=10, critic_feature_fits=5, drawn=3000,
            contextual_steps=60, scheduled_fits=30, contextual_episodes=300, contextual_greedy=30)


class Task(Environment):
    """Random walk pushed by the action; the episode ends at random (terminal) or by the horizon."""

    def __init__(self, d, k, gamma, horizon, p_end, seed_, scale=1., bonus=0.):
        self.g = np.random.RandomState(seed_)
        self.A, self.B, self.c = self.g.randn(d, d) * .3, self.g.randn(d, k) * .3, self.g.randn(d)
        self.d, self.k, self.p_end, self.scale, self.bonus = d, k, p_end, scale, bonus
        self.eps = []
        super().__init__(MDPInfo(Box(-np.inf, np.inf, shape=(d,)), Box(-np.inf, np.inf, shape=(k,)), gamma, horizon))

    def reset(self, state=None):
        self.s = self.g.randn(self.d)
        self.eps.append([])
        return self.s.copy(), {}

    def step(self, action):
        a = np.asarray(action, dtype=float).reshape(-1)
        s = self.s
        self.s = np.tanh(self.A @ s + self.B @ a) + .1 * self.g.randn(self.d)
        r = float(-((self.s - self.c) ** 2).sum() - .1 * (a ** 2).sum()) * self.scale
        if not self.eps[-1]:
            r += self.bonus                         # the same for every episode: shifts all returns
        end = bool(self.g.rand() < self.p_end)
        self.eps[-1].append((s.copy(), a.copy(), r))
        return self.s.copy(), r, end, {}


class VecTask(VectorizedEnvironment):
    def __init__(self, n, **kw):
        self.tasks = [Task(seed_=kw['seed_'] + i, **{k: v for k, v in kw.items() if k != 'seed_'}) for i in range(n)]
        super().__init__(self.tasks[0].info, n)

    def reset_all(self, env_mask, state=None):
        for i, t in enumerate(self.tasks):
            if env_mask[i]:
                t.reset()
        return np.array([t.s for t in self.tasks]), [{} for _ in self.tasks]

    def step_all(self, env_mask, action):
        r, ab = np.zeros(len(self.tasks)), np.zeros(len(self.tasks), dtype=bool)
        for i, t in enumerate(self.tasks):
            if env_mask[i]:
                _, r[i], ab[i], _ = t.step(action[i])
        return np.array([t.s for t in self.tasks]), r, ab, [{} for _ in self.tasks]


class Block:
    """Copy of the data handed to the fit (the loop clears the dataset afterwards)."""

    def __init__(self, ds):
        self.theta_list = [np.array(t, dtype=float, copy=True) for t in ds.theta_list]
        self.state, self.action, self.reward, self.last = [np.array(x, copy=True) for x in (ds.state, ds.action, ds.reward, ds.last)]

    def __len__(self):
        return len(self.last)


class Recorder(Optimizer):
    """Step rule that records what it is asked and delegates to a library optimizer."""

    def __init__(self, inner):
        self.inner, self.calls = inner, []

    def __call__(self, params, grads, *a, **kw):
        p, g = np.array(params, copy=True), np.array(grads, copy=True)
        out = self.inner(params, grads, *a, **kw)
        self.calls.append((p, g, np.array(out, copy=True)))
        return out


def rule(rng):
    return Recorder([SGDOptimizer(lr=.01), AdaptiveOptimizer(eps=.02), AdamOptimizer(lr=.01)][rng.randint(3)])


def div(a, b):
    with np.errstate(divide='ignore', invalid='ignore'):
        out = a / b
    out[~np.isfinite(out)] = 0.
    return out


def gradient(m, rng, alg, policy, d, k, gamma, fits, per_fit, features=None):
    seed(rng)
    np_state = np.geterr()
    env = Task(d, k, gamma, int(rng.randint(4, 12)), float(rng.choice([0., .1, .3])), int(rng.randint(2 ** 31)))
    reg = lambda: Regressor(LinearApproximator, input_shape=(d,), output_shape=(k,))
    mu = reg()
    mu.set_weights(rng.randn(d * k) * .3)
    if policy == 'fixed':
        pol = GaussianPolicy(mu, spd(rng, k, .3))
    elif policy == 'diagonal':
        pol = DiagonalGaussianPolicy(mu, np.exp(rng.randn(k) * .3))
    else:
        sd = reg()
        sd.set_weights(rng.randn(d * k) * .3)
        pol = StateStdGaussianPolicy(mu, sd, .05) if policy == 'state-std' else StateLogStdGaussianPolicy(mu, sd)
    opt = rule(rng)
    kw = {}
    crit = None
    if features:
        from mushroom_rl.features import Features
        from mushroom_rl.features.basis import PolynomialBasis
        crit = PolynomialBasis.generate(1, d)
        kw['critic_features'] = Features(basis_list=crit)
    ag = alg(env.info, pol, opt, **kw)
    core = Core(ag, env)
    try:
        for f in range(fits):
            w0 = np.array(pol.get_weights(), copy=True)
            twin = copy.deepcopy(pol)
            n0, c0 = len(env.eps), len(opt.calls)
            unfinished = f % 3 == 2
            if not unfinished:
                core.learn(n_episodes=per_fit, n_episodes_per_fit=per_fit, quiet=True)
                eps = env.eps[n0:]
            else:
                # a block of steps whose last episode may be cut in the middle: only its finished episodes count
                ds = core.evaluate(n_steps=int(rng.randint(2, 4)) * 12 + 5, quiet=True)
                eps = env.eps[n0:]
                if not bool(ds.last[-1]):
                    eps = eps[:-1]
                    m.event('unfinished_blocks')
                if len(eps) < 2:
                    continue
                ag.fit(ds)
            eps = [e for e in eps if e]
            m.eq(len(opt.calls), c0 + 1, 'one-step-per-fit')
            p, g, out = opt.calls[-1]
            m.close(p, w0, 'step-from-other-parameters', '', rtol=0, atol=0)
            m.close(pol.get_weights(), out, 'step-result-not-applied', '', rtol=0, atol=0)
            scores = [np.array([twin.diff_log(s, a) for s, a, r in e]) for e in eps]
            disc = [gamma ** np.arange(len(e)) for e in eps]
            rew = [np.array([r for s, a, r in e]) * dd for e, dd in zip(eps, disc)]
            J = np.array([x.sum() for x in rew])
            if alg is REINFORCE:
                S = np.array([x.sum(0) for x in scores])
                b = div((S ** 2 * J[:, None]).mean(0), (S ** 2).mean(0))
                want = (S * (J[:, None] - b)).mean(0)
            elif alg is GPOMDP:
                if unfinished and len(opt.calls) and not bool(ds.last[-1]):
                    full = env.eps[n0:]          # the unfinished episode contributes to the baseline only
                    sc2 = [np.array([twin.diff_log(s, a) for s, a, r in e]) for e in full if e]
                    rw2 = [np.array([r for s, a, r in e]) * gamma ** np.arange(len(e)) for e in full if e]
                else:
                    sc2, rw2 = scores, rew
                want = []
                T = max(len(x) for x in sc2)
                base = []
                for t in range(T):
                    c = np.array([x[:t + 1].sum(0) ** 2 for x in sc2 if len(x) > t])
                    rr = np.array([x[t] for x in rw2 if len(x) > t])
                    base.append(div((c * rr[:, None]).mean(0), c.mean(0)))
                for sc, rr in zip(scores, rew):
                    cum = np.cumsum(sc, axis=0)
                    want.append(sum(cum[t] * (rr[t] - base[t]) for t in range(len(rr))))
                want = np.mean(want, axis=0)
            else:
                psi = []
                for e, sc, dd in zip(eps, scores, disc):
                    ext = np.ones(1) if crit is None else np.array([b(e[0][0]) for b in crit], dtype=float)
                    psi.append(np.concatenate([(sc * dd[:, None]).sum(0), ext]))
                psi = np.array(psi)
                want = np.linalg.lstsq(psi, J, rcond=1e-15 * max(psi.shape))[0][:len(w0)]
                m.event('critic_feature_fits', int(crit is not None))
                if np.linalg.cond(psi) > 1e9:
                    continue
            m.close(g, want, 'gradient', f'{alg.__name__} {policy} {len(eps)} episodes', rtol=1e-6, atol=1e-7 * np.abs(want).max())
            m.event('gradient_fits')
            m.event('gradient_episodes', len(eps))
            w1 = pol.get_weights()
            if policy == 'diagonal' and (w1[-k:] < .1).any() or np.abs(w1).max() > 3:
                pol.set_weights(w0)                 # keep the task well scaled
            m.seen(alg.__name__, policy, d, k, gamma, len(eps), unfinished)
    finally:
        np.seterr(**np_state)


def divergence(w):
    p = w / w.sum()
    q = p[p > 0]
    return float((q * np.log(q * len(w))).sum())


def reps_eta(J, eps):
    """Temperature with divergence eps of the weights from the uniform ones."""
    f = lambda x: divergence(np.exp((J - J.max()) / np.exp(x))) - eps
    return np.exp(brentq(f, np.log(np.ptp(J)) - 12, np.log(np.ptp(J)) + 12, xtol=1e-13, rtol=1e-13))


def black_box(m, rng, alg, kind, d, k, gamma, fits, per_fit, arg, envs=0, scale=1., bonus=0., sched=False):
    seed(rng)
    kw = dict(d=d, k=k, gamma=gamma, horizon=int(rng.randint(3, 8)), p_end=float(rng.choice([0., .1, .3])), seed_=int(rng.randint(2 ** 30)), scale=scale, bonus=bonus)
    env = VecTask(envs, **kw) if envs else Task(**kw)
    tasks = env.tasks if envs else [env]
    reg = Regressor(LinearApproximator, input_shape=(d,), output_shape=(k,))
    n = d * k
    mu0, cov0, std0 = rng.randn(n) * .5, spd(rng, n, .5), np.exp(rng.randn(n) * .3)
    state = dict(cov=cov0)
    dist = build(kind, mu0, cov0, std0)
    pol = DeterministicPolicy(reg)
    opt = rule(rng)
    wrapped = []

    def spy(name):
        orig = getattr(dist, name)

        def f(theta, weights=None, *a, **k_):
            wrapped.append((np.array(theta, copy=True), np.array(weights, copy=True), a))
            return orig(theta, weights, *a, **k_)
        setattr(dist, name, f)
    given = lambda x: x
    now = lambda: arg
    if sched:                                       # the coefficients follow a schedule that advances once per fit
        given = lambda x: LinearParameter(2 * x, x, 5)
        twins = [given(x) for x in (arg if isinstance(arg, list) else [arg])]

        def now():
            v = [float(np.ravel(t())[0]) for t in twins]
            m.event('scheduled_fits')
            return v if isinstance(arg, list) else v[0]
    if alg is PGPE:
        ag = PGPE(env.info, dist, pol, opt)
    elif alg is RWR:
        ag = RWR(env.info, dist, pol, beta=given(arg) if sched or rng.rand() < .5 else Parameter(arg))
        spy('mle')
    elif alg is REPS:
        ag = REPS(env.info, dist, pol, eps=given(arg))
        spy('mle')
    elif alg is ConstrainedREPS:
        ag = ConstrainedREPS(env.info, dist, pol, eps=given(arg[0]), kappa=given(arg[1]))
        spy('con_wmle')
    else:
        ag = MORE(env.info, dist, pol, eps=given(arg[0]), h0=given(arg[1]), kappa=given(arg[2]))
    seen_ds = []
    fit = ag.fit

    def watched(ds):
        seen_ds.append(Block(ds))
        fit(ds)
    ag.fit = watched
    core = VectorCore(ag, env) if envs else Core(ag, env)
    zs = []

    def params():
        return np.array(dist.get_parameters(), dtype=float, copy=True)

    def used(ds, episodes, p):
        """The parameters recorded for each episode are the ones that acted, whitened with the distribution in force."""
        th = [np.array(t, dtype=float) for t in ds.theta_list]
        m.eq(len(th), len(episodes), 'episodes-and-parameters')
        mean, cov = [x.numpy() for x in unpack(kind, torch.as_tensor(p), n, state)]
        L = np.linalg.cholesky(cov)
        for t, e in zip(th, episodes):
            for s, a, r in e:
                m.close(a, t.reshape(k, d) @ s, 'episode-with-other-parameters', f'{alg.__name__} {kind}', rtol=1e-9, atol=1e-9)
                m.event('theta_steps')
            zs.append(np.linalg.solve(L, t - mean))
            m.event('episodes')
            m.event('vectorized_episodes', int(envs > 0))
        return np.array(th)
    if envs:
        # vectorized: whole episodes are collected and fitted once, then checked against the recorded episodes
        for f in range(fits):
            p0 = params()
            for t in tasks:
                t.eps.clear()
            ds = core.evaluate(n_episodes=per_fit, quiet=True)
            eps = [e for t in tasks for e in t.eps]
            th = [np.array(x, dtype=float) for x in ds.theta_list]
            got = []
            cur = []
            for i in range(len(ds)):
                cur.append((np.array(ds.state[i]), np.array(ds.action[i]), float(ds.reward[i])))
                if ds.last[i]:
                    got.append(cur)
                    cur = []
            m.eq(len(got), per_fit, 'vectorized-episode-count')
            used(ds, got, p0)
            m.close(params(), p0, 'evaluation-changed-distribution', '', rtol=0, atol=0)
            for t in tasks:
                t.eps.clear()
            seen_ds.clear()
            wrapped.clear()
            c0 = len(opt.calls)
            core.learn(n_episodes=per_fit, n_episodes_per_fit=per_fit, quiet=True)
            m.ok(len(seen_ds) == 1, 'vectorized-fit-count', f'{len(seen_ds)}')
            ds = seen_ds[0]
            got, cur = [], []
            for i in range(len(ds)):
                cur.append((np.array(ds.state[i]), np.array(ds.action[i]), float(ds.reward[i])))
                if ds.last[i]:
                    got.append(cur)
                    cur = []
            T = used(ds, got, p0)
            J = np.array([sum(gamma ** i * x[2] for i, x in enumerate(e)) for e in got])
            check_update(m, rng, alg, kind, n, now(), state, p0, params(), T, J, wrapped, opt, c0)
        whitened(m, np.array(zs), 'parameters-not-from-the-distribution', f'{alg.__name__} {kind} vectorized')
        return
    for f in range(fits):
        p0 = params()
        w_before = len(wrapped)
        c0 = len(opt.calls)
        env.eps.clear()
        seen_ds.clear()
        core.learn(n_episodes=per_fit, n_episodes_per_fit=per_fit, quiet=True)
        m.eq(len(seen_ds), 1, 'fits-per-block')
        th = used(seen_ds[0], env.eps, p0)
        J = np.array([sum(gamma ** i * x[2] for i, x in enumerate(e)) for e in env.eps])
        check_update(m, rng, alg, kind, n, now(), state, p0, params(), th, J, wrapped[w_before:], opt, c0)
        m.event('black_box_fits')
        m.seen(alg.__name__, kind, n, gamma, per_fit, str(arg))
        if f % 3 == 2:
            p1 = params()
            ag.set_deterministic(True)
            env.eps.clear()
            ds = core.evaluate(n_episodes=4, quiet=True)
            mean = unpack(kind, torch.as_tensor(p1), n, state)[0].numpy()
            for t in ds.theta_list:
                m.close(t, mean, 'deterministic-parameters', f'{alg.__name__}', rtol=1e-12, atol=1e-12)
                m.event('deterministic_episodes')
            for e in env.eps:
                for s, a, r in e:
                    m.close(a, mean.reshape(k, d) @ s, 'deterministic-action', '', rtol=1e-9, atol=1e-9)
            ag.set_deterministic(False)
            m.close(params(), p1, 'evaluation-changed-distribution', '', rtol=0, atol=0)
        if kind != 'fixed':                             # keep the distribution well scaled
            fresh = build(kind, mu0, cov0, std0).get_parameters()
            S = unpack(kind, torch.as_tensor(params()), n, state)[1].numpy()
            if np.linalg.cond(S) > 1e4 or np.trace(S) < .02 or np.trace(S) > 200:
                dist.set_parameters(np.array(fresh, copy=True))
        elif np.abs(params()).max() > 5:
            dist.set_parameters(mu0.copy())
    whitened(m, np.array(zs), 'parameters-not-from-the-distribution', f'{alg.__name__} {kind}')


def check_update(m, rng, alg, kind, n, arg, state, p0, p1, th, J, wrapped, opt, c0):
    mean, cov = [x.numpy() for x in unpack(kind, torch.as_tensor(p0), n, state)]
    if alg is PGPE:
        m.eq(len(opt.calls), c0 + 1, 'one-step-per-fit')
        p, g, out = opt.calls[-1]
        sc = []
        for t in th:
            pt = torch.tensor(p0, requires_grad=True)
            lp = logpdf(torch.as_tensor(t), *unpack(kind, pt, n, state))
            sc.append(torch.autograd.grad(lp, pt)[0].numpy())
        sc = np.array(sc)
        b = div((sc ** 2 * J[:, None]).mean(0), (sc ** 2).mean(0))
        want = (sc * (J[:, None] - b)).mean(0)
        m.close(p, p0, 'step-from-other-parameters', '', rtol=0, atol=0)
        m.close(g, want, 'pgpe-gradient', kind, rtol=1e-6, atol=1e-7 * np.abs(want).max())
        m.close(p1, out, 'step-result-not-applied', '', rtol=1e-12, atol=1e-12)
        return
    if alg in (RWR, REPS, ConstrainedREPS):
        m.eq(len(wrapped), 1, 'one-fit-per-update')
        t, w, rest = wrapped[0]
        m.close(t, th, 'fit-on-other-parameters', '', rtol=0, atol=0)
        if alg is RWR:
            want = np.exp(arg * (J - J.max()))
            tol = 1e-9
        else:
            eps = arg if alg is REPS else arg[0]
            dv = divergence(w)
            m.ok(dv <= eps * 1.01 + 2e-3, 'weights-exceed-the-divergence', f'{alg.__name__} divergence {dv} allowed {eps}')
            if eps < .8 * np.log(len(J)):
                want = np.exp((J - J.max()) / reps_eta(J, eps))
                tol = 2e-2
                m.event('divergence_active')
            else:
                want = None
        if want is not None:
            m.close(w / w.sum(), want / want.sum(), 'weights', f'{alg.__name__} {len(J)} episodes', rtol=tol, atol=tol * (want / want.sum()).max())
        v = w / w.sum()
        if alg is ConstrainedREPS:
            m.close(np.array(rest, dtype=float), np.array(arg, dtype=float), 'bounds-passed', '', rtol=0, atol=0)
            if w.sum() ** 2 / (w ** 2).sum() > 2 * n + 2:
                m1, S1 = [x.numpy() for x in unpack(kind, torch.as_tensor(p1), n, state)]
                d_ = kl(mean, cov, m1, S1)
                m.ok(d_ <= arg[0] * 1.03 + 3e-3, 'divergence-of-the-update', f'{d_} allowed {arg[0]}')
                dh = .5 * (np.linalg.slogdet(cov)[1] - np.linalg.slogdet(S1)[1])
                m.ok(kind == 'fixed' or dh <= arg[1] * 1.03 + 1e-2, 'entropy-of-the-update', f'{dh} allowed {arg[1]}')
            return
        mu = v @ th
        m.close(p1[:n], mu, 'updated-mean', f'{alg.__name__}', rtol=1e-8, atol=1e-9)
        dl = th - mu
        C = (v[:, None] * dl).T @ dl / (1 - (v ** 2).sum())
        if kind == 'diagonal':
            m.close(p1[n:] ** 2, np.diag(C), 'updated-variance', '', rtol=1e-6, atol=1e-12)
        elif kind == 'cholesky':
            S1 = unpack(kind, torch.as_tensor(p1), n, state)[1].numpy()
            m.close(S1, C, 'updated-covariance', '', rtol=1e-6, atol=1e-8 * np.abs(C).max())
        return
    # MORE
    eps, h0, kappa = arg
    ent = lambda S: .5 * (n * (1 + np.log(2 * np.pi)) + np.linalg.slogdet(S)[1])
    beta = kappa * (ent(cov) - h0) + h0
    m1, S1 = [x.numpy() for x in unpack(kind, torch.as_tensor(p1), n, state)]
    m.ok(np.isfinite(p1).all(), 'more-not-finite')
    d_ = kl(m1, S1, mean, cov)
    Jn = (J - J.mean()) / J.std()
    iu = np.triu_indices(n)
    X = np.concatenate([np.ones((len(th), 1)), th, (th[:, :, None] * th[:, None, :])[:, iu[0], iu[1]]], axis=1)
    if len(th) < X.shape[1] + 3 or np.linalg.cond(X) > 1e5:
        return
    c = np.linalg.lstsq(X, Jn, rcond=None)[0]
    R = np.zeros((n, n))
    R[iu] = c[1 + n:]
    R = .5 * (R + R.T)
    w, v = np.linalg.eigh(R)
    w[w >= 0] = -1e-12
    R = v @ np.diag(w) @ v.T
    X1 = np.concatenate([np.ones((len(th), 1)), th], axis=1)
    l = np.linalg.lstsq(X1, Jn - np.einsum('ni,ij,nj->n', th, R, th), rcond=None)[0]
    gain = lambda mu, S: mu @ R @ mu + np.trace(R @ S) + l[1:] @ mu
    m.ok(d_ <= eps * 1.05 + 1e-2, 'more-divergence', f'{d_} allowed {eps}')
    m.ok(ent(S1) >= beta - .02 - .02 * abs(beta - ent(cov)), 'more-entropy', f'{ent(S1)} required {beta}, before {ent(cov)}')
    Qi = np.linalg.inv(cov)
    best = gain(m1, S1)
    k_ = 0
    for _ in range(300):
        eta, om = 10. ** rng.uniform(-3, 3), 10. ** rng.uniform(-6, 3)
        F = np.linalg.inv(eta * Qi - 2 * R)
        mu, S = F @ (eta * Qi @ mean + l[1:]), F * (eta + om)
        if kl(mu, S, mean, cov) > eps or ent(S) < beta:
            continue
        k_ += 1
        m.ok(gain(mu, S) <= best + 3e-2 * (1 + abs(best - gain(mean, cov))), 'more-not-optimal', f'a feasible search distribution has surrogate return {gain(mu, S)}, the update {best}')
    m.event('more_fits', int(k_ > 0))


def switching(m, rng, kind, d, k):
    """The same agent in the single loop and in vectorized loops of different sizes."""
    seed(rng)
    kw = dict(d=d, k=k, gamma=.9, horizon=6, p_end=.2, seed_=int(rng.randint(2 ** 30)))
    n = d * k
    dist = build(kind, rng.randn(n), spd(rng, n), np.exp(rng.randn(n) * .3))
    pol = DeterministicPolicy(Regressor(LinearApproximator, input_shape=(d,), output_shape=(k,)))
    first = Task(**kw)
    ag = RWR(first.info, dist, pol, beta=.1)
    for size in [0] + [int(x) for x in rng.permutation([2, 3, 5, 2, 4])] + [0]:
        core = VectorCore(ag, VecTask(size, **kw)) if size else Core(ag, Task(**kw))
        ds = core.evaluate(n_episodes=12, quiet=True)
        m.eq(len(ds.theta_list), 12, 'episodes-and-parameters', f'{size} environments')
        e = 0
        for i in range(len(ds)):
            t = np.asarray(ds.theta_list[e], dtype=float)
            m.close(np.asarray(ds.action[i]).reshape(-1), t.reshape(k, d) @ np.asarray(ds.state[i]), 'episode-with-other-parameters', f'{size} environments', rtol=1e-9, atol=1e-9)
            m.event('theta_steps')
            e += int(ds.last[i])
        th = np.array([np.asarray(t) for t in ds.theta_list])
        m.eq(len(np.unique(th.round(12), axis=0)), 12, 'parameters-shared-between-episodes', f'{size} environments')
        m.event('vectorized_episodes', 12 * (size > 0))
        m.seen('switching', kind, size)


class Lin(torch.nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.h = torch.nn.Linear(input_shape[-1], output_shape[0], bias=False)

    def forward(self, s, **kw):
        return self.h(s.float())


def proximal(m, rng, kind, d, k, gamma, fits, per_fit, batch, epochs, eps, ent):
    seed(rng)
    env = Task(d, k, gamma, int(rng.randint(3, 8)), .1, int(rng.randint(2 ** 31)))
    n = d * k
    net = Regressor(TorchApproximator, network=Lin, input_shape=(d,), output_shape=(k,))
    pol = DeterministicPolicy(net)
    dist = build(kind, rng.randn(n) * .5, spd(rng, n, .5), np.exp(rng.randn(n) * .3))
    lr = .03
    ag = ePPO(env.info, dist, pol, dict(**{'class': torch.optim.SGD}, params=dict(lr=lr)), epochs, batch, eps, ent_coeff=ent)
    steps, calls = [], []
    orig = dist.log_pdf

    def log_pdf(theta, context=None):
        calls.append(np.array(theta.detach() if torch.is_tensor(theta) else theta, copy=True))
        return orig(theta, context)
    dist.log_pdf = log_pdf
    seen_ds = []
    core = Core(ag, env, callbacks_fit=[lambda x: seen_ds.append(Block(x))])
    zs = []
    for f in range(fits):
        p0 = dist.get_parameters().detach().double().clone()
        env.eps.clear()
        seen_ds.clear()
        calls.clear()
        core.learn(n_episodes=per_fit, n_episodes_per_fit=per_fit, quiet=True)
        ds = seen_ds[0]
        th = np.array([np.asarray(t) for t in ds.theta_list], dtype=float)
        m.eq(len(th), len(env.eps), 'episodes-and-parameters')
        mean, cov = unpack(kind, p0, n, {})
        L = np.linalg.cholesky(cov.numpy())
        for t, e in zip(th, env.eps):
            zs.append(np.linalg.solve(L, t - mean.numpy()))
            for s, a, r in e:
                m.close(a, t.reshape(k, d) @ s, 'episode-with-other-parameters', 'proximal', rtol=1e-4, atol=1e-4)
                m.event('theta_steps')
            m.event('episodes')
        J = np.array([sum(gamma ** i * x[2] for i, x in enumerate(e)) for e in env.eps])
        Jn = (J - J.mean()) / (J.std(ddof=1) + 1e-8)
        old = logpdf(torch.as_tensor(th), mean, cov).numpy()
        p = p0.clone()
        # the sequence of minibatches, identified by their parameters
        order = [c for c in calls if c.ndim == 2]
        key = {tuple(np.float32(t)): i for i, t in enumerate(th)}
        rows = [[key.get(tuple(np.float32(x)), -1) for x in c] for c in order]
        m.ok(all(i >= 0 for r in rows for i in r), 'proximal-unknown-parameters')
        rows = [r for r in rows]
        nb = -(-len(th) // batch)
        extra = len(rows) - nb * epochs
        m.ok(extra >= 0, 'proximal-missing-steps', f'{len(rows)} for {nb} x {epochs}')
        rows = rows[extra:]                             # the first evaluation(s) give the old densities
        for e_ in range(epochs):
            block = rows[e_ * nb:(e_ + 1) * nb]
            m.eq(sorted(i for r in block for i in r), list(range(len(th))), 'proximal-epoch-does-not-cover-the-episodes')
            for r in block:
                pt = p.clone().requires_grad_(True)
                mu_, cv = unpack(kind, pt, n, {})
                lp = logpdf(torch.as_tensor(th[r]), mu_, cv)
                ratio = torch.exp(lp - torch.as_tensor(old[r]))
                A = torch.as_tensor(Jn[r])
                H = .5 * n * (1 + np.log(2 * np.pi)) + .5 * torch.logdet(cv)
                loss = -torch.min(ratio * A, torch.clamp(ratio, 1 - eps, 1 + eps) * A).mean() - ent * H
                p = (pt - lr * torch.autograd.grad(loss, pt)[0]).detach()
                m.event('proximal_steps')
                if 'cholesky' in kind:                  # the factor must keep a positive diagonal to describe a Gaussian
                    F = np.zeros((n, n))
                    F[np.tril_indices(n)] = p[n:].numpy()
                    if np.diag(F).min() < .05:
                        m.event('left_the_domain')
                        return
        got = dist.get_parameters().detach().double()
        move = float((p - p0).abs().max())
        m.close(got - p0, p - p0, 'proximal-update', f'{kind} batch {batch} epochs {epochs}', rtol=2e-2, atol=2e-2 * move + 1e-5)
        m.event('black_box_fits')
        m.seen('proximal', kind, n, batch, epochs, eps, f)
    whitened(m, np.array(zs), 'parameters-not-from-the-distribution', f'proximal {kind}')


class Conditional(AbstractGaussianTorchDistribution):
    """Gaussian whose mean is affine in the context."""

    def __init__(self, W, b, log_sigma):
        self.W, self.b, self.ls = [torch.nn.Parameter(torch.as_tensor(x, dtype=torch.float32)) for x in (W, b, log_sigma)]
        super().__init__(context_shape=(W.shape[1],))

    def _get_mean_and_chol(self, context):
        c = torch.as_tensor(context, dtype=torch.float32)
        return c @ self.W.T + self.b, torch.diag(torch.exp(self.ls))

    def parameters(self):
        return [self.W, self.b, self.ls]


class FromState(ContextBuilder):
    def __init__(self, c):
        super().__init__((c,))
        self.c = c
        self._add_save_attr(c='primitive')

    def __call__(self, initial_state, **info):
        x = torch.as_tensor(np.array(initial_state), dtype=torch.float32)
        return torch.cat([x[..., :1] ** 2, torch.sin(2 * x)], dim=-1)[..., :self.c]


def contextual(m, rng, d, k, c, gamma, fits, per_fit, batch, epochs, ent, envs=0):
    """Proximal search over parameters conditioned on the first state of each episode."""
    seed(rng)
    kw = dict(d=d, k=k, gamma=gamma, horizon=int(rng.randint(3, 8)), p_end=.1)
    if envs:
        env = VecTask(envs, seed_=int(rng.randint(2 ** 30)), **kw)
        reset = env.reset_all
        env.reset_all = lambda mask, state=None: (reset(mask, state)[0], {})
        tasks = env.tasks
    else:
        env = Task(seed_=int(rng.randint(2 ** 31)), **kw)
        tasks = [env]
    n = d * k
    pol = DeterministicPolicy(Regressor(TorchApproximator, network=Lin, input_shape=(d,), output_shape=(k,)))
    dist = Conditional(rng.randn(n, c), rng.randn(n) * .5, rng.randn(n) * .3 - 1)
    builder = FromState(c)
    lr, eps = .03, .2
    ag = ePPO(env.info, dist, pol, dict(**{'class': torch.optim.SGD}, params=dict(lr=lr)), epochs, batch, eps, ent_coeff=ent, context_builder=builder)
    calls = []
    orig = dist.log_pdf

    def log_pdf(theta, context=None):
        calls.append((np.array(theta.detach(), copy=True), None if context is None else np.array(context, copy=True)))
        return orig(theta, context)
    dist.log_pdf = log_pdf
    blocks = []
    fit = ag.fit

    def watched(ds):
        blocks.append(Block(ds))
        return fit(ds)
    ag.fit = watched
    core = (VectorCore if envs else Core)(ag, env)
    zs = []
    for f in range(fits):
        P0 = [x.detach().double().clone() for x in dist.parameters()]
        for t in tasks:
            t.eps.clear()
        blocks.clear()
        calls.clear()
        core.learn(n_episodes=per_fit, n_episodes_per_fit=per_fit, quiet=True)
        m.eq(len(blocks), 1, 'contextual-fits')
        ds = blocks[0]
        th = np.array([np.asarray(t) for t in ds.theta_list], dtype=float)
        first = np.r_[0, np.flatnonzero(ds.last)[:-1] + 1]
        s0 = ds.state[first]
        C = builder(s0).double()
        m.eq(len(th), len(s0), 'contextual-episodes-and-parameters')
        # each episode plays the parameters listed for it, drawn for the state it starts in
        mean = (C @ P0[0].T + P0[1]).numpy()
        zs += list((th - mean) / torch.exp(P0[2]).numpy())
        ep = np.searchsorted(np.flatnonzero(ds.last), np.arange(len(ds)))
        played = np.einsum('ikd,id->ik', th[ep].reshape(-1, k, d), ds.state)
        m.close(ds.action, played, 'contextual-episode-with-other-parameters', rtol=1e-4, atol=1e-4)
        m.event('contextual_episodes', len(th))
        J = np.array([(gamma ** np.arange(b - a) * ds.reward[a:b]).sum() for a, b in zip(first, np.r_[first[1:], len(ds)])])
        Jn = torch.as_tensor((J - J.mean()) / (J.std(ddof=1) + 1e-8))
        T = torch.as_tensor(th)

        def lp(P, rows):
            mu = C[rows] @ P[0].T + P[1]
            return (-.5 * ((T[rows] - mu) / torch.exp(P[2])) ** 2 - P[2] - .5 * np.log(2 * np.pi)).sum(-1)
        old = lp(P0, list(range(len(th))))
        key = {tuple(np.float32(t)): i for i, t in enumerate(th)}
        seq = [([key.get(tuple(np.float32(x)), -1) for x in t], ctx) for t, ctx in calls if t.ndim == 2]
        nb = -(-len(th) // batch)
        extra = len(seq) - nb * epochs
        m.ok(extra >= 0 and all(i >= 0 for r, _ in seq for i in r), 'contextual-steps', f'{len(seq)} for {nb} x {epochs}')
        for r, ctx in seq:
            m.ok(ctx is not None and ctx.shape == (len(r), c), 'contextual-density-without-context')
            if ctx is not None and ctx.shape == (len(r), c):
                m.close(ctx, C[r].numpy(), 'context-of-another-episode', rtol=1e-5, atol=1e-5)
        P = [x.clone() for x in P0]
        for e_ in range(epochs):
            block = seq[extra + e_ * nb:extra + (e_ + 1) * nb]
            m.eq(sorted(i for r, _ in block for i in r), list(range(len(th))), 'contextual-epoch-does-not-cover-the-episodes')
            for r, _ in block:
                Pt = [x.clone().requires_grad_(True) for x in P]
                ratio = torch.exp(lp(Pt, r) - old[r])
                H = (.5 * (1 + np.log(2 * np.pi)) + Pt[2]).sum()
                loss = -torch.min(ratio * Jn[r], torch.clamp(ratio, 1 - eps, 1 + eps) * Jn[r]).mean() - ent * H
                g = torch.autograd.grad(loss, Pt)
                P = [(x - lr * y).detach() for x, y in zip(Pt, g)]
                m.event('contextual_steps')
        for got, want, was, what in zip(dist.parameters(), P, P0, ('slope', 'offset', 'scale')):
            move = float((want - was).abs().max())
            m.close(got.detach().double() - was, want - was, 'contextual-update', f'{what} batch {batch} epochs {epochs} ent {ent}',
                    rtol=2e-2, atol=2e-2 * move + 1e-5)
        m.seen('contextual', n, c, batch, epochs, f, envs)
    whitened(m, np.array(zs), 'contextual-parameters-not-from-the-distribution', 'contextual')
    # greedy parameters of a context
    ag.set_deterministic(True)
    blocks.clear()
    ds = core.evaluate(n_episodes=6 if not envs else 2 * envs, quiet=True)
    th = np.array([np.asarray(t.detach() if torch.is_tensor(t) else t) for t in ds.theta_list], dtype=float)
    st, last = np.array(ds.state), np.array(ds.last)
    s0 = st[np.r_[0, np.flatnonzero(last)[:-1] + 1]]
    want = dist.mean(builder(s0)).detach().numpy()
    m.eq(len(th), len(s0), 'contextual-episodes-and-parameters', 'evaluation')
    m.close(th, want, 'contextual-deterministic-parameters', rtol=1e-4, atol=1e-5)
    m.event('contextual_greedy', len(th))


CLASSES = dict(REINFORCE=REINFORCE, GPOMDP=GPOMDP, eNAC=eNAC, PGPE=PGPE, RWR=RWR, REPS=REPS, ConstrainedREPS=ConstrainedREPS, MORE=MORE)


def gradient_case(m, rng, alg, **kw):
    gradient(m, rng, CLASSES[alg], **kw)


def box_case(m, rng, alg, **kw):
    black_box(m, rng, CLASSES[alg], **kw)


def cases(tier, rng):
    R = 2 if tier == 'quick' else 10
    for r in range(R):
        for alg in ('REINFORCE', 'GPOMDP', 'eNAC'):
            for policy in ('fixed', 'diagonal', 'state-std', 'state-log-std'):
                for d, k in ((1, 1), (2, 2)):
                    g = float(rng.choice([.5, .9, 1.]))
                    yield gradient_case, dict(alg=alg, policy=policy, d=d, k=k, gamma=g, fits=6, per_fit=25 if alg == 'eNAC' else int(rng.randint(2, 12)))
        for policy in ('fixed', 'diagonal'):
            yield gradient_case, dict(alg='eNAC', policy=policy, d=2, k=1, gamma=.9, fits=6, per_fit=30, features=True)
        for kind in ('fixed', 'diagonal', 'cholesky'):
            for d, k in ((1, 1), (2, 1), (3, 1)):
                g = float(rng.choice([.5, .9, 1.]))
                yield box_case, dict(alg='PGPE', kind=kind, d=d, k=k, gamma=g, fits=6, per_fit=15, arg=None)
                for b in (.05, 1.):
                    yield box_case, dict(alg='RWR', kind=kind, d=d, k=k, gamma=g, fits=6, per_fit=30, arg=b, bonus=float(rng.choice([0., 0., 3e3, -3e3])))
                for e in (.1, .5):
                    yield box_case, dict(alg='REPS', kind=kind, d=d, k=k, gamma=g, fits=6, per_fit=30, arg=e, scale=float(rng.choice([.1, 1., 30.])), bonus=float(rng.choice([0., 0., 3e3, -3e3])))
                    yield box_case, dict(alg='ConstrainedREPS', kind=kind, d=d, k=k, gamma=g, fits=5, per_fit=30, arg=[e, .3], bonus=float(rng.choice([0., 0., 3e3, -3e3])))
            yield box_case, dict(alg='RWR', kind=kind, d=2, k=1, gamma=.9, fits=3, per_fit=30, arg=.3, envs=int(rng.randint(2, 6)))
            yield box_case, dict(alg='PGPE', kind=kind, d=2, k=2, gamma=.9, fits=3, per_fit=24, arg=None, envs=int(rng.randint(2, 6)))
            yield switching, dict(kind=kind, d=2, k=2)
        for kind in ('cholesky', 'diagonal'):
            yield box_case, dict(alg='RWR', kind=kind, d=2, k=1, gamma=.9, fits=6, per_fit=30, arg=.3, sched=True)
            yield box_case, dict(alg='REPS', kind=kind, d=2, k=1, gamma=.9, fits=6, per_fit=30, arg=.3, sched=True)
            yield box_case, dict(alg='ConstrainedREPS', kind=kind, d=2, k=1, gamma=.9, fits=5, per_fit=30, arg=[.2, .15], sched=True)
        yield box_case, dict(alg='MORE', kind='cholesky', d=2, k=1, gamma=.9, fits=4, per_fit=40, arg=[.2, -5., .4], sched=True)
        for d in (1, 2, 3):
            for e in (.1, .5, 1.):
                for kap in (.99, .5):
                    yield box_case, dict(alg='MORE', kind='cholesky', d=d, k=1, gamma=.9, fits=4, per_fit=40, arg=[e, -5. * d, kap])
        for kind in ('torch-diagonal', 'torch-cholesky'):
            for batch, epochs in ((100, 1), (100, 4), (7, 3)):
                for ent in (0., .05):
                    yield proximal, dict(kind=kind, d=2, k=1, gamma=.9, fits=3, per_fit=20, batch=batch, epochs=epochs, eps=.2, ent=ent)
        for envs in (0, 3):
            for batch, epochs, ent in ((7, 2, 0.), (30, 3, .05), (5, 1, .2)):
                yield contextual, dict(d=2, k=1 + r % 2, c=int(rng.randint(1, 4)), gamma=.9, fits=3, per_fit=20, batch=batch, epochs=epochs, ent=ent, envs=envs)
