"""C18: discrete policies."""
import numpy as np
from scipy.special import logsumexp
from scipy.stats import binom
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.table import Table
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.policy import EpsGreedy, Boltzmann, Mellowmax
from mushroom_rl.rl_utils.parameters import Parameter, LinearParameter, DecayParameter

PROPERTY = 'C18'
RULE = ('random tables of action values (ties, extremes, negative, one or several state dimensions, linear approximators) for each '
        'policy; probabilities are compared with the formula, long sequences of draws with the probabilities by exact binomial '
        'tests, and the exploration schedule with a twin schedule ticked once per draw')
NEED = dict(probability_vectors=600, tied_states=150, drawn=100000, draw_tests=300, mellowmax_equations=100, schedule_draws=1000, scheduled_distributions=200,
            schedule_queries=200, extreme_tables=100, single_probabilities=1500)
P_FALSE = 1e-10


def values(rng, n, kind):
    if kind == 'ties':
        return rng.randint(-1, 2, n).astype(float)
    if kind == 'equal':
        return np.full(n, float(rng.randn()))
    if kind == 'extreme':
        return rng.randn(n) * 10. ** rng.randint(-12, 13, n)
    if kind == 'big':
        return rng.randn(n) * 200
    if kind == 'negative':
        return -np.abs(rng.randn(n)) * 5 - 1
    if kind == 'close':
        q = np.zeros(n) + float(rng.randn())
        return q + rng.randint(0, 3, n) * 1e-9
    return rng.randn(n) * 3


class Holder:
    """Action values behind a table, an ensemble-free regressor or a linear model; states as the library passes them."""

    def __init__(self, rng, kind, model, ns, na):
        self.q = np.array([values(rng, na, kind) for _ in range(ns)])
        self.model, self.na, self.ns = model, na, ns
        if model == 'table':
            self.app = Table((ns, na))
            for i in range(ns):
                for a in range(na):
                    self.app[np.array([i]), np.array([a])] = self.q[i, a]
        else:
            self.app = Regressor(LinearApproximator, input_shape=(ns,), output_shape=(na,), n_actions=na)
            w = np.zeros((na, ns))
            for i in range(ns):
                w[:, i] = self.q[i]
            self.app.set_weights(w.ravel())

    def state(self, i):
        if self.model == 'table':
            return np.array([i])
        return np.eye(self.ns)[i]

    def predict(self, i):
        s = self.state(i)
        return self.q[i]


def softmax(x):
    x = x - x.max()
    e = np.exp(x)
    return e / e.sum()


def draws(m, pol, s, p, n, key, msg):
    cnt = np.zeros(len(p), dtype=int)
    for _ in range(n):
        a, ps = pol.draw_action(s, None)
        a = np.asarray(a)
        m.ok(a.shape == (1,) and 0 <= int(a[0]) < len(p) and int(a[0]) == a[0], 'invalid-action', f'{a}')
        cnt[int(a[0])] += 1
    m.event('drawn', n)
    for a in range(len(p)):
        q = float(np.clip(p[a], 0, 1))
        pv = min(binom.cdf(cnt[a], n, q), binom.sf(cnt[a] - 1, n, q))
        m.ok(pv > P_FALSE, key, f'{msg}: action {a} drawn {cnt[a]} of {n}, probability {q}')
    m.event('draw_tests')


def probs(m, pol, s, want, key, msg, tol):
    got = np.asarray(pol(s), dtype=float)
    m.eq(got.shape, (len(want),), 'probability-shape', msg)
    m.ok((got >= 0).all(), 'negative-probability', msg)
    m.close(got.sum(), 1., 'probabilities-do-not-sum-to-one', msg, rtol=0, atol=1e-9)
    m.close(got, want, key, msg, rtol=tol, atol=tol)
    m.event('probability_vectors')
    for a in range(len(want)):
        one = np.asarray(pol(s, np.array([a])), dtype=float)
        m.eq(one.size, 1, 'single-probability-shape', msg)
        m.close(one.ravel()[0], want[a], key + '-single', f'{msg} action {a}', rtol=tol, atol=tol)
        m.event('single_probabilities')
    return got


def eps_greedy(m, rng, kind, model, ns, na, eps, n):
    np.random.seed(int(rng.randint(2 ** 31)))
    h = Holder(rng, kind, model, ns, na)
    pol = EpsGreedy(Parameter(eps) if rng.rand() < .5 else eps)
    pol.set_q(h.app)
    for i in range(ns):
        q = h.predict(i)
        best = q == q.max()
        want = np.full(na, eps / na)
        want[best] += (1 - eps) / best.sum()
        s = h.state(i)
        probs(m, pol, s, want, 'eps-greedy-probability', f'eps {eps} q {q}', 1e-9)
        draws(m, pol, s, want, n, 'eps-greedy-draws', f'eps {eps} q {q}')
        m.event('tied_states', int(best.sum() > 1))
        m.event('extreme_tables', int(kind == 'extreme'))
        m.seen('eps', kind, model, na, int(best.sum()), eps)


def boltzmann(m, rng, kind, model, ns, na, beta, n):
    np.random.seed(int(rng.randint(2 ** 31)))
    h = Holder(rng, kind, model, ns, na)
    pol = Boltzmann(Parameter(beta) if rng.rand() < .5 else beta)
    pol.set_q(h.app)
    for i in range(ns):
        q = h.predict(i)
        want = softmax(q * beta)
        s = h.state(i)
        probs(m, pol, s, want, 'boltzmann-probability', f'beta {beta} q {q}', 1e-7)
        draws(m, pol, s, want, n, 'boltzmann-draws', f'beta {beta} q {q}')
        m.event('extreme_tables', int(kind == 'extreme'))
        m.seen('boltzmann', kind, model, na, beta)


def mellowmax(m, rng, kind, model, ns, na, omega, lo, hi, n):
    np.random.seed(int(rng.randint(2 ** 31)))
    h = Holder(rng, kind, model, ns, na)
    pol = Mellowmax(Parameter(omega), beta_min=lo, beta_max=hi)
    pol.set_q(h.app)
    for i in range(ns):
        q = h.predict(i)
        s = h.state(i)
        mm = (logsumexp(q * omega) - np.log(na)) / omega
        scale = np.abs(q - mm).max() + 1e-300

        def g(b):
            return float((softmax(b * q) * (q - mm)).sum())
        got = np.asarray(pol(s), dtype=float)
        m.ok((got >= 0).all() and abs(got.sum() - 1) < 1e-9, 'mellowmax-not-a-distribution', f'{got}')
        a, b = g(lo), g(hi)
        if a * b < 0 and min(abs(a), abs(b)) > 1e-9 * scale:
            # the maximum-entropy policy whose expected value is the mellowmax of the values
            m.ok(abs(float((got * (q - mm)).sum())) <= 1e-5 * scale + 1e-9, 'mellowmax-equation',
                 f'omega {omega} q {q}: expected value {float((got * q).sum())} mellowmax {mm}')
            m.event('mellowmax_equations')
        elif a * b > 0 and min(abs(a), abs(b)) > 1e-9 * scale:
            m.close(got, np.full(na, 1 / na), 'mellowmax-no-root', f'omega {omega} q {q}', rtol=0, atol=1e-9)
        # probabilities are those of a softmax of the values
        ok = got > 1e-12
        if ok.sum() > 2 and np.ptp(q[ok]) > 1e-6:
            l = np.log(got[ok])
            A = np.stack([q[ok], np.ones(ok.sum())], 1)
            res = l - A @ np.linalg.lstsq(A, l, rcond=None)[0]
            m.ok(np.abs(res).max() < 1e-6 * (1 + np.abs(l).max()), 'mellowmax-not-a-softmax', f'{got} q {q}')
        for k in range(na):
            m.close(float(np.ravel(pol(s, np.array([k])))[0]), got[k], 'mellowmax-single', '', rtol=1e-9, atol=1e-12)
            m.event('single_probabilities')
        m.event('probability_vectors')
        draws(m, pol, s, got, n, 'mellowmax-draws', f'omega {omega} q {q}')
        m.seen('mellowmax', kind, model, na, omega)


def schedule(m, rng, policy, sched, ns, na, script):
    """The exploration parameter is ticked once per draw, for the visited state only; queries of eps-greedy do not tick it."""
    np.random.seed(int(rng.randint(2 ** 31)))
    h = Holder(rng, 'plain', 'table', ns, na)

    def make():
        if sched == 'linear':
            return LinearParameter(value=.9, threshold_value=.1, n=15)
        if sched == 'decay':
            return DecayParameter(value=1., exp=.7)
        return DecayParameter(value=1., exp=.7, size=(ns,))
    par, twin = make(), make()
    ticks, upd = [0], par.update

    def update(*a, **kw):
        ticks[0] += 1
        return upd(*a, **kw)
    par.update = update
    pol = dict(eps=EpsGreedy, boltzmann=Boltzmann, mellowmax=Mellowmax)[policy](par)
    pol.set_q(h.app)
    for op, i in script:
        s = h.state(i)
        if op == 'draw':
            pol.draw_action(s, None)
            twin(s)
            m.event('schedule_draws')
        elif policy == 'eps':
            got = np.asarray(pol(s))
            e = float(np.ravel(twin.get_value(s))[0])
            want = np.full(na, e / na)
            want[h.q[i].argmax()] += 1 - e
            m.close(got, want, 'probabilities-use-current-parameter', f'{sched} {e}', rtol=1e-9, atol=1e-9)
            m.event('schedule_queries')
        else:
            # one value of the parameter rules the whole distribution: the one before or the one after this query
            ticks[0] = 0
            got = np.asarray(pol(s), dtype=float)
            v = lambda p: float(np.ravel(p.get_value(s))[0])
            before, now = v(twin), v(par)
            m.ok(ticks[0] <= 1, 'several-ticks-per-query', f'{policy} {sched}')
            if ticks[0]:
                twin(s)
            q = h.q[i]
            err = []
            for w in (before, now):
                if policy == 'boltzmann':
                    err.append(np.abs(got - softmax(w * q)).max())
                else:
                    mm = (logsumexp(q * w) - np.log(na)) / w
                    f = lambda b: float((softmax(b * q) * (q - mm)).sum())
                    err.append(0. if f(-9.9) * f(9.9) > 0 else abs(float((got * (q - mm)).sum())) / (np.abs(q - mm).max() + 1e-300))
            m.ok(min(err) < 1e-6, 'one-parameter-value-per-distribution', f'{policy} {sched} errors {err}')
            m.event('scheduled_distributions')
        for k in range(ns):
            m.close(par.get_value(h.state(k)), twin.get_value(h.state(k)), 'schedule-ticks', f'{policy} {sched} after {op}', rtol=1e-12, atol=0)
    m.seen('schedule', policy, sched)


def cases(tier, rng):
    N = 1 if tier == 'quick' else 10
    c = lambda *x: x[int(rng.randint(len(x)))]
    kinds = ('plain', 'ties', 'ties', 'equal', 'extreme', 'negative', 'close')
    for _ in range(5 * N):
        yield eps_greedy, dict(kind='plain', model='table', ns=3, na=int(rng.randint(15, 40)), eps=c(0., .3, 1.), n=3000)
        yield boltzmann, dict(kind='plain', model='table', ns=3, na=int(rng.randint(15, 40)), beta=c(.1, 1., 5.), n=1500)
    for _ in range(220 * N):
        yield eps_greedy, dict(kind=c(*kinds), model=c('table', 'linear'), ns=int(rng.randint(1, 5)), na=int(rng.randint(2, 7)),
                               eps=c(0., .05, .3, .8, 1.), n=800)
        yield boltzmann, dict(kind=c(*kinds), model=c('table', 'linear'), ns=int(rng.randint(1, 4)), na=int(rng.randint(2, 7)),
                              beta=c(0., .1, 1., 5., 100.), n=500)
        yield mellowmax, dict(kind=c('plain', 'ties', 'equal', 'negative', 'big'), model=c('table', 'linear'), ns=int(rng.randint(1, 4)), na=int(rng.randint(2, 7)),
                              omega=c(.3, 1., 5., 20.), lo=-10., hi=c(10., 2., 100.), n=100)
    for _ in range(40 * N):
        ns = int(rng.randint(1, 4))
        yield schedule, dict(policy=c('eps', 'eps', 'boltzmann', 'mellowmax'), sched=c('linear', 'decay', 'decay_s'), ns=ns, na=3,
                             script=[[c('draw', 'draw', 'query'), int(rng.randint(ns))] for _ in range(60)])
