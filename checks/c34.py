"""C34: classic actor-critic algorithms."""
import numpy as np
import torch

from mushroom_rl.algorithms.actor_critic import COPDAC_Q, StochasticAC, StochasticAC_AVG
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Core, Environment, MDPInfo
from mushroom_rl.policy import DiagonalGaussianPolicy, GaussianPolicy, StateLogStdGaussianPolicy, StateStdGaussianPolicy
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from mushroom_rl.rl_utils.spaces import Box

PROPERTY = 'C34'
RULE = ('the three algorithms trained by the real Core (fits after every step and after every episode) on random continuous tasks with '
        'terminal and truncated episodes, with and without value features, one and several action dimensions, four kinds of Gaussian '
        'policy, constant and decaying step sizes; an observer at the fit entry feeds each transition to an independent implementation of '
        'the published update (gradients of the log density by automatic differentiation of the density itself) and compares the actor '
        'weights, and the critic weights where the agent shows them, after every fit')
NEED = dict(updates=4000, terminal=250, truncated=150, episode_starts=300, critic_compared=1500, episodic_fits=100, with_features=40,
            several_actions=20, decaying=40, stochastic=1000, average=1000, copdac=1000)
CASE_LIMIT = 60


class Feat:
    def __init__(self, W):
        self.W = W
        self.size = len(W)

    def __call__(self, s):
        return np.tanh(self.W @ np.asarray(s)) + .1


class Task(Environment):
    def __init__(self, rng, ds, da, gamma, horizon, p_term):
        self.r, self.ds, self.p = rng, ds, p_term
        self.A, self.B = rng.randn(ds, ds) * .4, rng.randn(ds, da) * .3
        self.c = rng.randn(ds)
        super().__init__(MDPInfo(Box(-10., 10., (ds,)), Box(-10., 10., (da,)), gamma, horizon))

    def reset(self, state=None):
        self.x = self.r.randn(self.ds)
        return self.x.copy(), {}

    def step(self, action):
        self.x = np.tanh(self.A @ self.x + self.B @ np.asarray(action)) + .3 * self.r.randn(self.ds)
        return self.x.copy(), float(np.round(self.c @ self.x, 3)), bool(self.r.rand() < self.p), {}


class Rate:
    def __init__(self, rng, scale):
        self.kind, self.v, self.n = str(rng.choice(['const', 'const', 'decay', 'linear', 'float'])), scale * rng.uniform(.3, 1.), 0

    def lib(self):
        if self.kind == 'float':
            return float(self.v)
        if self.kind == 'const':
            return Parameter(self.v)
        if self.kind == 'decay':
            return DecayParameter(self.v, exp=.5)
        return LinearParameter(self.v, self.v / 5, 40)

    def __call__(self):
        self.n += 1
        if self.kind == 'decay':
            return self.v / self.n ** .5
        if self.kind == 'linear':
            return max(self.v / 5, self.v + (self.v / 5 - self.v) / 40 * self.n)
        return self.v


def policies(rng, kind, ds, da):
    """Library policy and its log density as a function of the flat weights."""
    def lin(n):
        r = Regressor(LinearApproximator, input_shape=(ds,), output_shape=(n,))
        r.set_weights(rng.randn(r.weights_size) * .3)
        return r
    mu = lin(da)
    k = ds * da

    def mean(w, s):
        return w[:k].reshape(da, ds) @ s
    if kind == 'fixed':
        S = np.diag(rng.uniform(.3, 1., da))
        if da > 1:
            q = rng.randn(da, da) * .2
            S = S + q @ q.T
        St = torch.tensor(S)

        def logp(w, s, a):
            d = a - mean(w, s)
            return -.5 * d @ torch.linalg.solve(St, d)
        return GaussianPolicy(mu, S), logp
    if kind == 'diagonal':
        def logp(w, s, a):
            sd = w[k:]
            return -.5 * (((a - mean(w, s)) / sd) ** 2).sum() - torch.log(sd).sum()
        return DiagonalGaussianPolicy(mu, rng.uniform(.5, 1., da)), logp
    if kind == 'logstd':
        def logp(w, s, a):
            ls = w[k:].reshape(da, ds) @ s
            return -.5 * (((a - mean(w, s)) / torch.exp(ls)) ** 2).sum() - ls.sum()
        return StateLogStdGaussianPolicy(mu, lin(da)), logp
    # variance (sigma(s) + eps)^2
    eps = 1e-6

    def logp(w, s, a):
        sd = w[k:].reshape(da, ds) @ s
        return -.5 * ((a - mean(w, s)) ** 2 / (sd ** 2 + eps)).sum() - .5 * torch.log(sd ** 2 + eps).sum()
    return StateStdGaussianPolicy(mu, lin(da), eps), logp


def run(m, rng, kind, pol, episodic):
    np.random.seed(int(rng.randint(2 ** 31)))
    ds, da = int(rng.randint(1, 4)), int(rng.choice([1, 1, 2, 3]))
    gamma = float(rng.choice([.9, .99, .5, 1.]))
    env = Task(np.random.RandomState(rng.randint(2 ** 31)), ds, da, gamma, int(rng.randint(3, 15)), float(rng.choice([0., .1, .3])))
    psi = Feat(rng.randn(int(rng.randint(1, 5)), ds)) if rng.rand() < .6 else None
    lam = float(rng.choice([0., .5, .9, 1.]))
    at, av, ax = Rate(rng, .02), Rate(rng, .1), Rate(rng, .05)
    m.event('with_features', int(psi is not None))
    m.event('several_actions', int(da > 1))
    m.event('decaying', int(any(x.kind in ('decay', 'linear') for x in (at, av))))
    lam_s = None
    f = psi if psi is not None else (lambda s: np.asarray(s))
    v = np.zeros(psi.size if psi is not None else ds)
    kw = dict(value_function_features=psi) if psi is not None else {}
    if kind == 'copdac':
        mu = Regressor(LinearApproximator, input_shape=(ds,), output_shape=(da,))
        mu.set_weights(rng.randn(mu.weights_size) * .3)
        theta = mu.get_weights().copy()
        agent = COPDAC_Q(env.info, GaussianPolicy(mu, np.eye(da) * .3), mu, at.lib(), ax.lib(), av.lib(), **kw)
        logp = None
        ref = dict(theta=theta, v=v, w=np.zeros(ds * da))
    else:
        policy, logp = policies(rng, pol, ds, da)
        if rng.rand() < .3:
            lam_s = LinearParameter(.9, .1, 40)
            lk = dict(lambda_par=LinearParameter(.9, .1, 40))
            m.event('scheduled_traces')
        else:
            lk = dict(lambda_par=lam) if lam != .9 or rng.rand() < .5 else {}
        if kind == 'stochastic':
            agent = StochasticAC(env.info, policy, at.lib(), av.lib(), **lk, **kw)
        else:
            agent = StochasticAC_AVG(env.info, policy, at.lib(), av.lib(), ax.lib(), **lk, **kw)
        ref = dict(theta=policy.get_weights().copy(), v=v, rbar=0.)
    n = len(ref['theta'])
    ev, et = np.zeros(len(v)), np.zeros(n)
    start = [True]
    dead = [False]

    def update(s, a, r, ss, ab):
        nonlocal ev, et
        if kind == 'copdac':
            J = np.zeros((da, ds * da))         # derivative of the linear policy: output i uses weights i*ds .. (i+1)*ds
            for i in range(da):
                J[i, i * ds:(i + 1) * ds] = s
            act = ref['theta'].reshape(da, ds) @ s
            nu = (a - act) @ J
            q = ref['v'] @ f(s) + ref['w'] @ nu
            delta = r + (0. if ab else gamma * (ref['v'] @ f(ss))) - q
            th = ref['theta'] + at() * (J.T @ (J @ ref['w']))
            w = ref['w'] + ax() * delta * nu
            vv = ref['v'] + av() * delta * f(s)
            ref.update(theta=th, w=w, v=vv)
            return
        lm = lambda: lam if lam_s is None else float(np.ravel(lam_s())[0])
        wt = torch.tensor(ref['theta'], requires_grad=True)
        g, = torch.autograd.grad(logp(wt, torch.tensor(s), torch.tensor(a)), wt)
        g = g.numpy()
        dead[0] |= bool(np.abs(g).max() > 300)      # deviation close to zero: the comparison is ill-conditioned from here on
        vn = 0. if ab else ref['v'] @ f(ss)
        if kind == 'stochastic':
            delta = r + gamma * vn - ref['v'] @ f(s)
            dec = gamma * lm()
        else:
            delta = r - ref['rbar'] + vn - ref['v'] @ f(s)
            ref['rbar'] += ax() * delta
            dec = lm()
        ev, et = dec * ev + f(s), dec * et + g
        ref['v'] = ref['v'] + av() * delta * ev
        ref['theta'] = ref['theta'] + at() * delta * et

    inner = agent.fit

    def fit(dataset):
        nonlocal ev, et
        rows = [tuple(np.array(x) for x in row) for row in zip(*dataset.parse(to='numpy')[:6])]
        before = ref['theta'].copy()
        for s, a, r, ss, ab, last in rows:
            if start[0]:
                ev, et = np.zeros(len(v)), np.zeros(n)
                m.event('episode_starts')
            update(s, a, float(r), ss, bool(ab))
            start[0] = bool(last)
            m.event('updates')
            m.event(kind)
            m.event('terminal', int(bool(ab)))
            m.event('truncated', int(bool(last) and not bool(ab)))
        inner(dataset)
        if dead[0]:
            return
        got = mu.get_weights() if kind == 'copdac' else agent.policy.get_weights()
        if not np.isfinite(ref['theta']).all() or np.abs(ref['theta']).max() > 1e3 or np.abs(ref['v']).max() > 1e4:
            dead[0] = True
            return
        scale = max(1e-3, float(np.abs(ref['theta'] - before).max()))
        m.close(got, ref['theta'], 'actor-weights', f'{kind} {pol}: actor after {len(rows)} transitions (lambda {lam}, gamma {gamma})',
                rtol=1e-6, atol=1e-6 * min(1., scale))
        V = getattr(agent, '_V', None)
        if V is not None:
            m.close(V.get_weights(), ref['v'], 'critic-weights', f'{kind}: critic after {len(rows)} transitions', rtol=1e-6, atol=1e-7)
            m.event('critic_compared')
            ref['v'] = np.array(V.get_weights())
        ref['theta'] = np.array(got)        # rounding differences do not accumulate
        m.event('episodic_fits', int(episodic))
        m.seen(kind, pol, ds, da, lam, gamma, bool(rows[-1][4]))
    agent.fit = fit
    core = Core(agent, env)
    if episodic:
        core.learn(n_episodes=int(rng.randint(3, 10)), n_episodes_per_fit=1, quiet=True)
    else:
        core.learn(n_steps=int(rng.randint(10, 50)), n_steps_per_fit=1, quiet=True)
        if rng.rand() < .5:
            start[0] = True         # a new run starts a new episode
            core.learn(n_steps=int(rng.randint(5, 20)), n_steps_per_fit=1, quiet=True)


def cases(tier, rng):
    n = 1 if tier == 'quick' else 8
    for _ in range(7 * n):
        for episodic in (False, False, True):
            for pol in ('fixed', 'diagonal', 'logstd', 'std'):
                yield 'run', dict(kind='stochastic', pol=pol, episodic=episodic)
                yield 'run', dict(kind='average', pol=pol, episodic=episodic)
            for _ in range(3):
                yield 'run', dict(kind='copdac', pol='mean', episodic=episodic)
