import copy
import math
import numpy as np
from mushroom_rl.algorithms.value import (QLearning, QLambda, DoubleQLearning, WeightedQLearning, SpeedyQLearning,
                                          MaxminQLearning, RQLearning, RLearning, SARSA, SARSALambda, ExpectedSARSA,
                                          SARSALambdaContinuous, TrueOnlineSARSALambda)
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Core
from mushroom_rl.environments.finite_mdp import FiniteMDP
from mushroom_rl.features import Features
from mushroom_rl.policy import EpsGreedy, Boltzmann
from mushroom_rl.rl_utils.parameters import Parameter, DecayParameter, LinearParameter
from mushroom_rl.rl_utils.variance_parameters import VarianceIncreasingParameter, VarianceDecreasingParameter, WindowedVarianceIncreasingParameter

PROPERTY = 'C12'
RULE = ('every learner trained by the real Core on random finite MDPs (2-7 states, 1-4 actions, terminal and truncated '
        'episodes, self loops, gamma 0..1), random initial values, constant / per-pair decaying / linear step sizes; an '
        'observer at the public fit entry compares all value tables with an independent implementation of the published '
        'rule after every transition')
NEED = dict(variance_rates=300, plain_rewards=3000, updates=20000, terminal=800, truncated=300, absorbing_nonzero_next=300, episode_starts=800, per_pair_rates=3000,
            sarsa_actions=1500, q_learning=400, q_lambda=400, double=400, weighted=400, speedy=400, maxmin=400, rq=400,
            r_learning=400, sarsa=400, sarsa_lambda=400, expected_sarsa=400, sarsa_continuous=400, true_online=400)


class Rate:
    """Reference schedule: value of the k-th use for each state-action pair (or globally)."""

    def __init__(self, spec, shape):
        self.spec = spec
        self.per = spec[0].endswith('_sa')
        self.n = np.zeros(shape if self.per else (1,))

    def lib(self, shape):
        k, *a = self.spec
        size = shape if self.per else (1,)
        if k.startswith('var'):
            cls = dict(inc=VarianceIncreasingParameter, dec=VarianceDecreasingParameter, win=WindowedVarianceIncreasingParameter)[a[0]]
            self.twin = cls(a[1], tol=a[2], size=size)         # C22 checks these schedules, here only how they are used
            return copy.deepcopy(self.twin)
        if k.startswith('const'):
            return Parameter(a[0])
        if k.startswith('decay'):
            return DecayParameter(a[0], exp=a[1], size=size)
        return LinearParameter(a[0], a[1], a[2], size=size)

    def __call__(self, s=0, a_=0, **kw):
        i = (s, a_) if self.per else (0,)
        if self.spec[0].startswith('var'):
            return float(np.ravel(self.twin(np.array([s]), np.array([a_]), **kw))[0])
        self.n[i] += 1
        return self.value(self.n[i])

    def value(self, n):
        k, *a = self.spec
        if k.startswith('const'):
            return a[0]
        if k.startswith('decay'):
            return a[0] / n ** a[1]
        v = a[0] + (a[1] - a[0]) / a[2] * n
        return max(v, a[1]) if a[1] < a[0] else min(v, a[1])

    def copy(self):
        return copy.deepcopy(self)


class NoisyMDP(FiniteMDP):
    """Finite MDP with noisy rewards, so that no update leaves its entry unchanged."""

    def step(self, action):
        s, r, ab, info = super().step(action)
        if self.plain == 'integers':
            return s, float(np.sign(r) * (abs(r) > .7)), ab, info
        if self.plain == 'zeros' and not ab and self.noise.rand() < .4:
            return s, 0., ab, info
        return s, r + self.noise.randn() * .1, ab, info


def mk_mdp(rng, ns, na, gamma, horizon, plain):
    p = np.zeros((ns, na, ns))
    r = np.zeros((ns, na, ns))
    term = set() if ns < 3 else set(int(x) for x in rng.choice(ns, int(rng.randint(0, max(1, ns // 3) + 1)), replace=False))
    for s in range(ns):
        for a in range(na):
            if s in term:
                continue
            k = int(rng.randint(1, min(3, ns) + 1))
            nx = rng.choice(ns, k, replace=False)
            w = rng.rand(k) + .1
            p[s, a, nx] = w / w.sum()
            r[s, a, :] = np.round(rng.randn(ns), 3)
    starts = [s for s in range(ns) if s not in term]
    mu = np.zeros(ns)
    mu[starts] = 1. / len(starts)
    mdp = NoisyMDP(p, r, mu, gamma, horizon)
    mdp.plain = plain
    mdp.noise = np.random.RandomState(int(rng.randint(2 ** 31)))
    return mdp, term


def egreedy_probs(q, eps):
    p = np.ones(len(q)) * eps / len(q)
    b = np.flatnonzero(q == q.max())
    p[b] += (1 - eps) / len(b)
    return p


def boltz_probs(q, beta):
    z = np.exp(beta * (q - q.max()))
    return z / z.sum()


def phi01(x):
    return .5 * (1 + np.vectorize(math.erf)(x / math.sqrt(2)))


def best_probs(means, sig):
    z = np.linspace(-9, 9, 9001)
    d = np.exp(-z * z / 2)
    d /= d.sum()
    P = np.zeros(len(means))
    for a in range(len(means)):
        x = means[a] + sig[a] * z
        f = np.ones_like(z)
        for b in range(len(means)):
            if b != a:
                f = f * phi01((x - means[b]) / sig[b])
        P[a] = (d * f).sum()
    return P / P.sum()


def learner(m, rng, kind, ns, na, gamma, horizon, rate, lam, trace, pol, second, n_steps, off, plain=''):
    mdp, term = mk_mdp(rng, ns, na, gamma, horizon, plain)
    shape = (ns, na)
    alpha = Rate(rate, shape)
    eps, beta_p = .4, .7
    policy = EpsGreedy(Parameter(eps)) if pol == 'eps' else Boltzmann(Parameter(beta_p))
    info = mdp.info
    gamma = info.gamma
    n_feat = 3
    tab = rng.randn(ns, n_feat)
    lin = kind in ('sarsa_continuous', 'true_online')
    sec = Rate(second, shape) if second is not None else None
    lr = alpha.lib(shape)
    if kind == 'q_learning':
        ag = QLearning(info, policy, lr)
    elif kind == 'q_lambda':
        ag = QLambda(info, policy, lr, lam, trace)
    elif kind == 'double':
        ag = DoubleQLearning(info, policy, lr)
    elif kind == 'weighted':
        prec = 800
        ag = WeightedQLearning(info, policy, lr, precision=prec)
    elif kind == 'speedy':
        ag = SpeedyQLearning(info, policy, lr)
    elif kind == 'maxmin':
        nt = int(rng.randint(1, 4))
        ag = MaxminQLearning(info, policy, lr, nt)
    elif kind == 'rq':
        ag = RQLearning(info, policy, lr, off_policy=off == 'off', **({'beta': sec.lib(shape)} if lam > .5 else {'delta': sec.lib(shape)}))
    elif kind == 'r_learning':
        ag = RLearning(info, policy, lr, sec.lib(shape))
    elif kind == 'sarsa':
        ag = SARSA(info, policy, lr)
    elif kind == 'sarsa_lambda':
        ag = SARSALambda(info, policy, lr, lam, trace)
    elif kind == 'expected_sarsa':
        ag = ExpectedSARSA(info, policy, lr)
    else:
        phi = Features(basis_list=[(lambda s, k=k: tab[int(np.asarray(s).ravel()[0]), k]) for k in range(n_feat)])
        params = dict(input_shape=(n_feat,), output_shape=(na,), n_actions=na, phi=phi)
        if kind == 'sarsa_continuous':
            ag = SARSALambdaContinuous(info, policy, LinearApproximator, lr, lam, params)
        else:
            ag = TrueOnlineSARSALambda(info, policy, lr, lam, params)

    S = {}

    def tables():
        if lin:
            return [np.array(ag.Q.get_weights()).reshape(na, n_feat)]
        if kind in ('double', 'maxmin'):
            return [ag.Q[i].table.copy() for i in range(2 if kind == 'double' else nt)]
        return [ag.Q.table.copy()]

    if lin:
        w0 = rng.randn(na * n_feat) * .3
        ag.Q.set_weights(w0.copy())
    elif kind in ('double', 'maxmin'):
        for i in range(2 if kind == 'double' else nt):
            ag.Q[i].table[:] = rng.randn(ns, na)
    elif plain == 'integers':
        if kind == 'speedy':
            S['old'] = ag.old_q.table.copy()
        elif kind == 'rq':
            S['R'], S['Qt'] = ag.R_tilde.table.copy(), ag.Q_tilde.table.copy()
    elif kind == 'speedy':
        ag.old_q.table[:] = rng.randn(ns, na)
        ag.Q.table[:] = rng.randn(ns, na)
        S['old'] = ag.old_q.table.copy()
    elif kind == 'rq':
        ag.Q.table[:] = rng.randn(ns, na)
        ag.R_tilde.table[:] = rng.randn(ns, na)
        ag.Q_tilde.table[:] = rng.randn(ns, na)
        S['R'], S['Qt'] = ag.R_tilde.table.copy(), ag.Q_tilde.table.copy()
    else:
        ag.Q.table[:] = rng.randn(ns, na)
    Q = tables()
    S.update(e=np.zeros((na, n_feat) if lin else shape), q_old=None, rho=0., Q2=np.zeros(shape), n=np.zeros(shape),
             w1=np.zeros(shape), w2=np.zeros(shape), sig=np.full(shape, 1e10), zs=[])
    counts = np.zeros(8)
    if kind in ('double', 'maxmin'):
        rates = [alpha.copy() for _ in Q]
    pending = [None]

    real_fit, real_start, real_draw = ag.fit, ag.episode_start, ag.draw_action

    def start(*a, **k):
        S['e'][:] = 0
        S['q_old'] = None
        pending[0] = None
        m.event('episode_starts')
        return real_start(*a, **k)

    def probs(q):
        return egreedy_probs(q, eps) if pol == 'eps' else boltz_probs(q, beta_p)

    def fit(ds):
        nonlocal Q
        s, a, r, nx, ab, last = ds.item()
        s, a, nx, r, ab, last = int(s[0]), int(a[0]), int(nx[0]), float(r), bool(ab), bool(last)
        if pending[0] is not None:
            m.eq(a, pending[0], 'bootstrap-action-executed', 'the action of the bootstrap is the one taken next')
            m.event('sarsa_actions')
        got0 = tables()
        for i in range(len(Q)):
            m.eq(got0[i], Q[i], 'estimates-changed-outside-fit', kind)
        real_fit(ds)
        got = tables()
        want = None
        na_ = None
        if kind in ('sarsa', 'sarsa_lambda', 'sarsa_continuous', 'true_online') or (kind == 'rq' and off != 'off' and not ab):
            m.ok(ag.next_action is not None, 'no-next-action')
            na_ = int(np.asarray(ag.next_action).ravel()[0])
        q = [t.copy() for t in Q]
        b = 0. if ab else 1.
        if ab:
            m.event('terminal')
            if not lin and np.abs(q[0][nx]).max() > 0:
                m.event('absorbing_nonzero_next')
        elif last:
            m.event('truncated')
        if alpha.per:
            m.event('per_pair_rates')
        if rate[0].startswith('var') or sec is not None and sec.spec[0].startswith('var'):
            m.event('variance_rates')
        if plain:
            m.event('plain_rewards')
        m.event('updates')
        m.event(kind)
        if kind in ('q_learning', 'sarsa', 'expected_sarsa'):
            v = {'q_learning': lambda: q[0][nx].max(), 'sarsa': lambda: q[0][nx, na_],
                 'expected_sarsa': lambda: probs(q[0][nx]) @ q[0][nx]}[kind]()
            q[0][s, a] += alpha(s, a) * (r + b * gamma * v - q[0][s, a])
        elif kind in ('q_lambda', 'sarsa_lambda'):
            v = q[0][nx].max() if kind == 'q_lambda' else q[0][nx, na_]
            d = r + b * gamma * v - q[0][s, a]
            S['e'][s, a] = 1. if trace == 'replacing' else S['e'][s, a] + 1.
            q[0] += alpha(s, a) * d * S['e']
            S['e'] *= gamma * lam
        elif kind == 'speedy':
            al = alpha(s, a)
            prev = q[0].copy()
            t_old = r + b * gamma * S['old'][nx].max()
            t_cur = r + b * gamma * q[0][nx].max()
            q[0][s, a] += al * (t_old - q[0][s, a]) + (1 - al) * (t_cur - t_old)
            S['old'] = prev
        elif kind in ('double', 'maxmin'):
            ch = [i for i in range(len(q)) if not np.array_equal(got[i], Q[i])]
            m.ok(len(ch) == 1, 'one-table-per-update', f'{len(ch)} tables changed')
            okc = None
            for i in ch:
                al = rates[i].copy()(s, a)
                if kind == 'double':
                    best = np.flatnonzero(q[i][nx] == q[i][nx].max())
                    vs = [q[1 - i][nx, j] for j in best]
                else:
                    vs = [np.min([t[nx] for t in q], axis=0).max()]
                for v in vs:
                    new = q[i][s, a] + al * (r + b * gamma * v - q[i][s, a])
                    if abs(new - got[i][s, a]) <= 1e-9 * (1 + abs(new)):
                        okc = (i, new)
            if okc is None:
                i = ch[0]
                m.close(got[i][s, a], new, 'published-update', f'{kind} table {i} s={s} a={a} r={r} next={nx} absorbing={ab}')
            i, new = okc
            rates[i](s, a)
            counts[i] += 1
            q[i][s, a] = new
        elif kind == 'weighted':
            al = alpha(s, a)
            c = q[0][s, a]
            tgt = (got[0][s, a] - c) / al + c
            if ab:
                m.close(tgt, r, 'published-update', 'terminal target', rtol=1e-7, atol=1e-7)
            elif gamma > 0:
                means, sg = q[0][nx], S['sig'][nx]
                P = best_probs(means, sg)
                ev = P @ means
                sd = math.sqrt(max(P @ means ** 2 - ev ** 2, 0) / prec)
                v = (tgt - r) / gamma
                span = means.max() - means.min()
                m.ok(abs(v - ev) <= 7 * sd + 4e-3 * span + 1e-6, 'weighted-estimator',
                     f'{v} vs {ev} +- {sd}, means {means} sigmas {sg}')
                if sd > 1e-2 * span:
                    S['zs'].append((v - ev) / sd)
            else:
                m.close(tgt, r, 'published-update', 'gamma 0', rtol=1e-7, atol=1e-7)
            q[0][s, a] = got[0][s, a]
            S['Q2'][s, a] += al * (tgt ** 2 - S['Q2'][s, a])
            S['n'][s, a] += 1
            S['w2'][s, a] = (1 - al) ** 2 * S['w2'][s, a] + al ** 2
            S['w1'][s, a] = (1 - al) * S['w1'][s, a] + al
            if S['n'][s, a] > 1:
                var = (S['Q2'][s, a] - q[0][s, a] ** 2) * S['w2'][s, a] / (2 * S['w1'][s, a] + 1e-10)
                S['sig'][s, a] = math.sqrt(max(var, 1e-10))
        elif kind == 'rq':
            al = alpha(s, a, target=r)
            S['R'][s, a] += al * (r - S['R'][s, a])
            if not ab:
                v = q[0][nx].max() if off == 'off' else q[0][nx, na_]
                be = sec(s, a, target=v) if lam > .5 else al * sec(s, a, target=v, factor=al)
                S['Qt'][s, a] += be * (v - S['Qt'][s, a])
            q[0][s, a] = S['R'][s, a] + gamma * S['Qt'][s, a]
            m.close(ag.R_tilde.table, S['R'], 'published-update', 'R tilde')
            m.close(ag.Q_tilde.table, S['Qt'], 'published-update', 'Q tilde')
        elif kind == 'r_learning':
            v = b * q[0][nx].max()
            new = q[0][s, a] + alpha(s, a) * (r - S['rho'] + v - q[0][s, a])
            q[0][s, a] = new
            mx = q[0][s].max()
            if abs(got[0][s, a] - got[0][s].max()) == 0:
                S['rho'] += sec(s, a) * (r - S['rho'] + v - mx)
        elif kind == 'sarsa_continuous':
            f, fn = tab[s], tab[nx]
            qc = q[0][a] @ f
            al = alpha(s, a)
            S['e'] *= gamma * lam
            S['e'][a] += f
            d = r + b * gamma * (q[0][na_] @ fn) - qc
            q[0] = q[0] + al * d * S['e']
        elif kind == 'true_online':
            f, fn = tab[s], tab[nx]
            qc = q[0][a] @ f
            qo = qc if S['q_old'] is None else S['q_old']
            al = alpha(s, a)
            e = S['e']
            ef = e[a] @ f
            e *= gamma * lam
            e[a] += al * (1 - gamma * lam * ef) * f
            qn = b * (q[0][na_] @ fn)
            q[0] = q[0] + (r + gamma * qn - qo) * e
            q[0][a] += al * (qo - qc) * f
            S['q_old'] = qn
        for i in range(len(q)):
            m.close(got[i], q[i], 'published-update', f'{kind} s={s} a={a} r={r} next={nx} absorbing={ab} last={last}',
                    rtol=1e-8, atol=1e-8)
            if not lin and kind not in ('q_lambda', 'sarsa_lambda'):
                mask = np.ones(shape, bool)
                mask[s, a] = False
                m.eq(got[i][mask], Q[i][mask], 'uninvolved-entries-changed', kind)
        Q = got
        pending[0] = na_ if not last else None
        m.seen(kind, s, a, nx, ab, last)

    ag.fit, ag.episode_start = fit, start
    core = Core(ag, mdp)
    np.random.seed(int(rng.randint(2 ** 31)))
    core.learn(n_steps=n_steps, n_steps_per_fit=1, quiet=True)
    if int(rng.randint(2)):
        core.learn(n_episodes=5, n_steps_per_fit=1, quiet=True)
    m.eq(len(tables()), len(Q), 'tables')
    if kind in ('double', 'maxmin') and counts.sum() > 60:
        n = counts.sum()
        k = len(Q)
        for i in range(k):
            m.ok(abs(counts[i] - n / k) <= 6.5 * math.sqrt(n / k * (1 - 1 / k)) + 1, 'table-choice-uniform', str(counts[:k]))
    if len(S['zs']) > 50:
        z = np.mean(S['zs']) * math.sqrt(len(S['zs']))
        # the integration grid and the discreteness of the weights add a little bias: generous margin
        m.ok(abs(z) < 9, 'weighted-estimator-biased', f'z={z} over {len(S["zs"])}')
    m.sample(kind=kind, ns=ns, na=na, gamma=gamma, final=Q[0])


KINDS = ['q_learning', 'q_lambda', 'double', 'weighted', 'speedy', 'maxmin', 'rq', 'r_learning', 'sarsa', 'sarsa_lambda',
         'expected_sarsa', 'sarsa_continuous', 'true_online']


def cases(tier, rng):
    n = 70 if tier == 'quick' else 250
    for kind in KINDS:
        for i in range(n if kind != 'weighted' else max(8, n // 3)):
            rate = [['const', .3], ['const', 1.], ['decay_sa', 1., .7], ['decay', .8, .3], ['linear_sa', .6, .1, 9],
                    ['linear', .1, .5, 40]][(i + int(rng.randint(2))) % 6]
            if kind in ('sarsa_continuous', 'true_online', 'rq', 'r_learning') and rate == ['const', 1.]:
                rate = ['const', .15]
            if kind in ('sarsa_continuous', 'true_online'):
                rate = [rate[0], .1, .02, 30] if rate[0].startswith('lin') else [rate[0], .1] + rate[2:]
            gamma = float(rng.choice([0., .5, .9, .99, 1.]))
            na = int(rng.randint(1, 5))
            plain = 'integers' if rng.rand() < .3 else ''
            if kind in ('double', 'maxmin'):        # every update has to change its table
                plain = 'zeros' if na > 1 and 0 < gamma < 1 and rate[1] < 1 and rng.rand() < .5 else ''
            second = None
            if kind in ('rq', 'r_learning'):
                second = [['const', .4], ['decay_sa', .9, .5]][i % 2]
            if kind == 'rq' and rng.rand() < .5:
                how = lambda: [str(rng.choice(['var', 'var_sa'])), str(rng.choice(['inc', 'dec', 'win'])), float(rng.choice([.3, .9])), float(rng.choice([.1, 1.]))]
                second = how()
                rate = how() if rng.rand() < .5 else rate
            yield learner, dict(kind=kind, ns=int(rng.randint(2, 8)), na=max(na, 2) if kind in ('weighted', 'sarsa_continuous',
                                                                                               'true_online') else na,
                                gamma=min(gamma, .9) if kind in ('sarsa_continuous', 'true_online') else gamma,
                                horizon=int(rng.choice([3, 8, 30])), rate=rate,
                                lam=float(rng.choice([0., .4, .9, 1.])) if kind not in ('sarsa_continuous', 'true_online') else float(rng.choice([0., .4, .9])),
                                trace=str(rng.choice(['replacing', 'accumulating'])), pol=str(rng.choice(['eps', 'boltzmann'])),
                                second=second, plain=plain,
                                n_steps=int(rng.choice([60, 120])), off=str(rng.choice(['on', 'off'])))
