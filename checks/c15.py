"""C15: fitted Q-iteration variants and LSPI against their Bellman backups."""
import numpy as np
import torch
from mushroom_rl.algorithms.value import FQI, DoubleFQI, BoostedFQI, LSPI
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Dataset, MDPInfo
from mushroom_rl.features import Features
from mushroom_rl.features.basis import PolynomialBasis
from mushroom_rl.policy import EpsGreedy
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.spaces import Box, Discrete

PROPERTY = 'C15'
RULE = 'the regression calls and resulting weights of FQI, DoubleFQI, BoostedFQI and LSPI equal independently computed Bellman backups'
NEED = dict(lspi_long=15, lspi_singular=20, regressions=400, terminal_rows=800, iterations=300, value_iteration_tables=20, lspi_fixed_points=20, lspi_terminal=5,
            unmodified_datasets=100, refits=15)


def n_(x):
    return x.detach().cpu().numpy() if torch.is_tensor(x) else np.asarray(x)


class Lookup:
    """Exact regressor: returns the mean of the targets seen for a state, 0 for unseen states."""

    def __init__(self, input_shape=None, output_shape=None, **_):
        self._t = {}
        self._out = output_shape

    def fit(self, *z, **_):
        x, y = z[0], z[-1]
        acc = {}
        for a, b in zip(n_(x), n_(y)):
            acc.setdefault(a.tobytes(), []).append(float(np.ravel(b)[0]))
        self._t = {k: sum(v) / len(v) for k, v in acc.items()}

    def predict(self, x, **_):
        return np.array([self._t.get(a.tobytes(), 0.) for a in n_(x)])


class QLookup:
    """Exact Q regressor with one output per action."""

    def __init__(self, input_shape=None, output_shape=None, **_):
        self._t = {}
        self._n = output_shape[0]

    def fit(self, x, a, y, **_):
        acc = {}
        for s, u, v in zip(n_(x), n_(a), n_(y)):
            acc.setdefault((s.tobytes(), int(np.ravel(u)[0])), []).append(float(np.ravel(v)[0]))
        self._t = {k: sum(v) / len(v) for k, v in acc.items()}

    def predict(self, x, a=None, **_):
        q = np.array([[self._t.get((s.tobytes(), u), 0.) for u in range(self._n)] for s in n_(x)])
        if a is None:
            return q
        return q[np.arange(len(q)), n_(a).astype(int).ravel()]


def data(rng, n, na, sdim, backend, pool, p_term):
    """Transitions over a finite pool of states (so next states are states of other rows) or over unique states."""
    if pool:
        P = rng.randn(pool, sdim)
        si, ni = rng.randint(pool, size=n), rng.randint(pool, size=n)
        s, nx = P[si], P[ni]
    else:
        s, nx = rng.randn(n, sdim), rng.randn(n, sdim)
    a = rng.randint(na, size=(n, 1))
    r = rng.randn(n) * float(rng.choice([1., 50.]))
    ab = rng.rand(n) < p_term
    last = ab | (rng.rand(n) < .15)
    last[-1] = True
    return s, a, r, nx, ab, last


def make(arr, backend, gamma):
    s, a, r, nx, ab, last = arr
    if backend == 'torch':
        t = [torch.tensor(s), torch.tensor(a), torch.tensor(r), torch.tensor(nx), torch.tensor(ab), torch.tensor(last)]
    else:
        t = [np.array(x) for x in arr]
    return Dataset.from_array(*t, gamma=gamma, backend=backend)


def snap(ds):
    return [n_(x).copy() for x in ds.parse()]


def phi(sdim, deg=1):
    return Features(basis_list=PolynomialBasis.generate(deg, sdim))


def agent(cls, na, sdim, gamma, model, n_iter, sched):
    mdp = MDPInfo(Box(-1e9, 1e9, shape=(sdim,)), Discrete(na), gamma, 100)
    if model == 'lina':
        f = phi(sdim)
        app, par = LinearApproximator, dict(input_shape=(f.size,), output_shape=(1,), n_actions=na, phi=f)
    elif model == 'lookup':
        app, par = Lookup, dict(input_shape=(sdim,), output_shape=(1,), n_actions=na)
    else:
        app, par = QLookup, dict(input_shape=(sdim,), output_shape=(na,), n_actions=na)
    if cls is BoostedFQI:
        par.update(n_models=n_iter, prediction='sum')
    it = n_iter if cls is BoostedFQI or not sched else Parameter(n_iter)
    return cls(mdp, EpsGreedy(Parameter(0.)), app, n_iterations=it, approximator_params=par, quiet=True)


def rows_of(x, s, a, act):
    """Indices of the dataset rows a regression call was given, in order; rows are distinct."""
    key = {}
    for i in range(len(s)):
        key.setdefault((s[i].tobytes(), int(a[i, 0])), []).append(i)
    return [key.get((n_(x)[k].tobytes(), int(n_(act).ravel()[k])), []) for k in range(len(x))]


def fqi(m, rng, variant, model, n, na, gamma, n_iter, backend, pool, p_term, fits, sched):
    cls = dict(fqi=FQI, double=DoubleFQI, boosted=BoostedFQI)[variant]
    sdim = 2
    ag = agent(cls, na, sdim, gamma, model, n_iter, sched)
    app = ag.approximator
    real = app.fit
    first = [True]
    for f in range(fits):
        n = int(rng.randint(8, 60)) if f else n          # every call brings its own amount of data
        arr = data(rng, n, na, sdim, backend, pool, p_term)
        s, a, r, nx, ab, last = arr
        ds = make(arr, backend, gamma)
        before = snap(ds)
        live = 1. - ab
        calls = []

        def preds():
            """Q values of the next states just before a regression."""
            if variant == 'fqi':
                return np.array(app.predict(nx))
            if variant == 'double':
                return [np.array(app.predict(nx, idx=i)) for i in range(2)]
            k = sum(1 for c in calls)
            return sum((np.array(app.predict(nx, idx=i)) for i in range(k)), np.zeros((n, na)))

        def fit(*z, **kw):
            half = variant == 'double' and len(calls) % 2 == 1
            q = None
            if not (first[0] and len(calls) < (2 if variant == 'double' else 1)) and not half:
                q = preds()
            calls.append(dict(x=n_(z[0]).copy(), a=n_(z[1]).copy(), y=n_(z[2]).copy(), idx=kw.get('idx'), q=q))
            real(*z, **kw)
        app.fit = fit
        ag.fit(ds)
        del app.fit
        per = 2 if variant == 'double' else 1
        m.eq(len(calls), per * n_iter, 'number-of-iterations', f'{variant} {n_iter} iterations requested')
        m.event('iterations', n_iter)
        tot = np.zeros(n)
        for k, c in enumerate(calls):
            it = k // per
            m.event('regressions')
            cand = rows_of(c['x'], s, a, c['a'])
            m.ok(all(cand), 'regressed-row-not-in-data', f'{variant} call {k}')
            if variant != 'double':
                m.eq(len(c['x']), n, 'rows-missing', f'{variant} call {k}')
                m.eq(c['x'], s, 'regressed-states')
                m.eq(c['a'].ravel(), a.ravel(), 'regressed-actions')
                rows = np.arange(n)
            else:
                rows = None
            if first[0] and it == 0:
                want = r
            elif variant == 'fqi':
                want = r + gamma * live * c['q'].max(1)
            elif variant == 'boosted':
                m.eq(c['idx'], it, 'boosted-member', 'each iteration fits its own member')
                want = r + gamma * live * c['q'].max(1)
            else:
                q = calls[k - k % 2]['q']
                i = c['idx']
                want = r + gamma * live * q[1 - i][np.arange(n), q[i].argmax(1)]
            if variant == 'boosted':
                tot = tot + c['y'].ravel()
                m.close(tot, want, 'boosted-target', f'iteration {it}: regression targets add up to the backup', rtol=1e-7, atol=1e-7)
                m.event('terminal_rows', int(ab.sum()))
            elif variant == 'fqi':
                m.close(c['y'].ravel(), want, 'fqi-target', f'iteration {it}', rtol=1e-7, atol=1e-7)
                m.event('terminal_rows', int(ab.sum()))
            else:
                y = c['y'].ravel()
                m.eq(len(y), len(c['x']), 'double-target-shape')
                used = []
                for j in range(len(y)):
                    good = [i for i in cand[j] if abs(want[i] - y[j]) <= 1e-7 * max(1, abs(want[i])) and i not in used]
                    m.ok(good, 'double-target', f'iteration {it} member {c["idx"]}: {y[j]} expected one of {[want[i] for i in cand[j]]}')
                    used += good[:1]
                    m.event('terminal_rows', int(bool(good) and bool(ab[good[0]])))
                c['rows'] = set(used)
                if k % 2:
                    a0, a1 = calls[k - 1].get('rows', set()), c['rows']
                    m.ok({calls[k - 1]['idx'], c['idx']} == {0, 1}, 'double-members')
                    m.ok(not (a0 & a1), 'double-halves-overlap')
                    m.ok(len(a0 | a1) >= n - 1, 'double-halves-incomplete', f'{len(a0 | a1)} of {n}')
            m.seen(variant, model, backend, it == 0, gamma == 0, bool(ab.any()), f)
        if n_iter:
            first[0] = False
        after = snap(ds)
        for x, y, w in zip(before, after, ('state', 'action', 'reward', 'next_state', 'absorbing', 'last')):
            m.eq(y, x, 'data-modified', f'{variant}: {w}')
        m.event('unmodified_datasets')
        if f:
            m.event('refits')


def table(m, rng, variant, ns, na, gamma, n_iter, qmodel):
    """With an exact regressor and every state-action pair present, k iterations are k steps of value iteration."""
    P = np.eye(ns)
    s = np.repeat(np.arange(ns), na)
    a = np.tile(np.arange(na), ns)
    nx = rng.randint(ns, size=ns * na)
    r = rng.randn(ns * na)
    ab = rng.rand(ns * na) < .3
    perm = rng.permutation(ns * na)
    s, a, nx, r, ab = s[perm], a[perm], nx[perm], r[perm], ab[perm]
    ag = agent(dict(fqi=FQI, boosted=BoostedFQI)[variant], na, ns, gamma, 'qlookup' if qmodel else 'lookup', n_iter, False)
    last = ab.copy()
    last[-1] = True
    ds = make((P[s], a.reshape(-1, 1), r, P[nx], ab, last), str(rng.choice(['numpy', 'torch'])), gamma)
    ag.fit(ds)
    Q = np.zeros((ns, na))
    for _ in range(n_iter):
        T = np.zeros_like(Q)
        T[s, a] = r + gamma * (1 - ab) * Q[nx].max(1)
        Q = T
    m.close(ag.approximator.predict(P), Q, 'value-iteration', f'{variant} {n_iter} iterations', rtol=1e-7, atol=1e-8)
    for i in range(ns):
        q = Q[i]
        if np.sort(q)[-1] - np.sort(q)[-2] > 1e-6 if na > 1 else True:
            m.eq(int(np.ravel(ag.draw_action(P[i], None)[0])[0]), int(q.argmax()), 'greedy-action', 'epsilon 0')
    m.event('value_iteration_tables')
    m.seen('table', variant, ns, na, n_iter)


def lstdq(F, Fn, a, na, r, ab, gamma, w, zero_terminal):
    """One LSTDQ solve for the greedy policy of w; w has shape (na, features)."""
    q = Fn @ w.T
    srt = np.sort(q, axis=1)
    if zero_terminal:
        pi = q.argmax(1)
    else:
        pi = (q * (1 - ab)[:, None]).argmax(1)
        srt = srt[~ab]
    gap = (srt[:, -1] - srt[:, -2]).min() if na > 1 and len(srt) else 1.
    d = F.shape[1]
    X, Y = np.zeros((len(F), na * d)), np.zeros((len(F), na * d))
    for i in range(len(F)):
        X[i, a[i] * d:(a[i] + 1) * d] = F[i]
        if not (zero_terminal and ab[i]):
            Y[i, pi[i] * d:(pi[i] + 1) * d] = Fn[i]
    A = X.T @ (X - gamma * Y)
    return A, X.T @ r, gap


def lspi(m, rng, ns, na, gamma, eps, tabular, p_term, n, backend, missing=False, chain=False):
    sdim = 2
    mdp = MDPInfo(Box(-1e9, 1e9, shape=(ns if tabular else sdim,)), Discrete(na), gamma, 100)
    if tabular:
        f = Features(basis_list=[lambda x, i=i: np.asarray(x)[i] for i in range(ns)])
        P = np.eye(ns)
    else:
        f = phi(sdim)
        P = rng.randn(ns, sdim)
    s = np.concatenate([np.repeat(np.arange(ns), na), rng.randint(ns, size=n)])
    a = np.concatenate([np.tile(np.arange(na), ns), rng.randint(na, size=n)])
    if missing:                                     # some pairs were never tried: the normal equations are singular
        gone = rng.randint(ns * na, size=rng.randint(1, 3))
        keep = ~np.isin(s * na + a, gone)
        s, a = s[keep], a[keep]
        if len(s) < 2:
            return
    N = len(s)
    nx, r = rng.randint(ns, size=N), rng.randn(N)
    if chain:           # the policy improves one state at a time, from the right end to the left
        nx, r = np.clip(s + 2 * a - 1, 0, ns - 1), np.where((s == ns - 1) & (a == 1), 1., np.where((s == 0) & (a == 0), .01, 0.))
    ab = rng.rand(N) < p_term
    last = ab.copy()
    last[-1] = True
    feat = np.array([[1.] if False else np.ravel(f(P[i])) for i in range(ns)])
    F, Fn = feat[s], feat[nx]
    d = feat.shape[1]

    def loop(zt):
        w = np.zeros((na, d))
        for k in range(60):
            A, b, gap = lstdq(F, Fn, a, na, r, ab, gamma, w, zt)
            if k and gap < 1e-7:
                return None
            sv = np.linalg.svd(A)[1]
            if missing:
                if ((sv > 1e-11) & (sv < 1e-4 * sv[0])).any():
                    return None
                nw = (np.linalg.pinv(A, rcond=1e-8) @ b).reshape(na, d)
                m.event('lspi_singular', int(sv[-1] <= 1e-11))
            elif sv[-1] * 1e8 < sv[0]:
                return None
            else:
                nw = np.linalg.solve(A, b).reshape(na, d)
            dist = np.linalg.norm(nw - w)
            if abs(dist - eps) < 1e-7:
                return None
            w = nw
            if dist <= eps:
                return w
        return None
    refs = [loop(True), loop(False)]
    if chain:
        m.ok(refs[1] is not None, 'harness', 'the chain converges')
        m.event('lspi_long')
    if refs[1] is None or (ab.any() and refs[0] is None):
        return              # policy iteration with function approximation need not converge, or the greedy choice is a tie
    ag = LSPI(mdp, EpsGreedy(Parameter(0.)), approximator_params=dict(input_shape=(d,), output_shape=(na,), n_actions=na, phi=f), epsilon=eps)
    ds = make((P[s], a.reshape(-1, 1), r, P[nx], ab, last), backend, gamma)
    before = snap(ds)
    ag.fit(ds)
    for x, y, w in zip(before, snap(ds), ('state', 'action', 'reward', 'next_state', 'absorbing', 'last')):
        m.eq(y, x, 'data-modified', f'lspi: {w}')
    m.event('unmodified_datasets')
    m.seen('lspi', tabular, ns, na, bool(ab.any()), backend)
    got = np.array(ag.approximator.get_weights()).reshape(na, d)
    if not ab.any():
        m.close(got, refs[1], 'lspi-weights', f'tabular {tabular} eps {eps}', rtol=1e-5, atol=1e-6)
        if eps < 1e-5:
            A, b, gap = lstdq(F, Fn, a, na, r, ab, gamma, got, True)
            if gap > 1e-6 and not missing:
                m.close(A @ got.ravel(), b, 'lspi-projected-bellman-residual', f'tabular {tabular}', rtol=1e-5, atol=1e-5)
        m.event('lspi_fixed_points')
    else:
        m.event('lspi_terminal')
        if not np.allclose(got, refs[0], rtol=1e-5, atol=1e-6):
            if np.allclose(got, refs[1], rtol=1e-5, atol=1e-6):
                m.ok(False, 'lspi-bootstraps-terminal', 'the features of a terminal next state enter the projected Bellman equation')
            else:
                m.ok(False, 'lspi-weights-terminal', f'{got.ravel()[:4]} expected {refs[0].ravel()[:4]}')


def cases(tier, rng):
    N = 1 if tier == 'quick' else 12
    for _ in range(200 * N):
        variant = str(rng.choice(['fqi', 'fqi', 'double', 'boosted']))
        n_iter = int(rng.randint(1, 6))
        yield fqi, dict(variant=variant, model=str(rng.choice(['lina', 'lookup', 'qlookup'])), n=int(rng.randint(8, 60)),
                        na=int(rng.choice([2, 3])), gamma=float(rng.choice([0., .5, .9, .99, 1.])), n_iter=n_iter,
                        backend=str(rng.choice(['numpy', 'torch', 'list'])), pool=int(rng.choice([0, 4, 12])),
                        p_term=float(rng.choice([0., .2, .7])), fits=1 if variant == 'boosted' else int(rng.randint(1, 4)),
                        sched=bool(rng.rand() < .3))
    for _ in range(100 * N):
        yield table, dict(variant=str(rng.choice(['fqi', 'boosted'])), ns=int(rng.randint(2, 7)), na=int(rng.randint(2, 4)),
                          gamma=float(rng.choice([.5, .9, .99])), n_iter=int(rng.randint(1, 9)), qmodel=bool(rng.rand() < .5))
    for _ in range(200 * N):
        yield lspi, dict(ns=int(rng.randint(2, 7)), na=int(rng.choice([2, 3])), gamma=float(rng.choice([.5, .9])),
                         eps=float(rng.choice([1e-8, 1e-8, 1e-2, .5])), tabular=bool(rng.rand() < .5),
                         p_term=float(rng.choice([0., 0., .3])), n=int(rng.randint(0, 20)),
                         backend=str(rng.choice(['numpy', 'torch', 'list'])))
    for _ in range(80 * N):
        yield lspi, dict(ns=int(rng.randint(2, 7)), na=int(rng.choice([2, 3])), gamma=float(rng.choice([.5, .9])),
                         eps=float(rng.choice([1e-8, 1e-2])), tabular=True, p_term=0., n=int(rng.randint(0, 20)),
                         backend=str(rng.choice(['numpy', 'torch', 'list'])), missing=True)
    for _ in range(20 * N):
        yield lspi, dict(ns=int(rng.randint(4, 13)), na=2, gamma=.9, eps=1e-6, tabular=True, p_term=0., n=int(rng.randint(0, 20)),
                         backend=str(rng.choice(['numpy', 'torch', 'list'])), chain=True)
