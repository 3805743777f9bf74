"""C25: finite MDPs and their generators."""
import os
import tempfile

import numpy as np
from scipy import stats

from mushroom_rl.environments import FiniteMDP
from mushroom_rl.environments.generators import generate_grid_world, generate_simple_chain, generate_taxi
from mushroom_rl.rl_utils.spaces import Discrete

PROPERTY = 'C25'
RULE = ('random chains, grid-world maps (walls, holes, several starts and goals, with and without border walls and final newline) and taxi '
        'maps (one to three passengers) are generated and every transition probability, start probability and reward of a possible '
        'transition is compared with a matrix built cell by cell from the text of the map; generated and random finite MDPs are then '
        'stepped, checking every step against the support, reward and terminal states and the recorded frequencies against the rows '
        'and the start distribution (chi-square, 1e-10)')
NEED = dict(chains=40, grids=40, taxis=30, rows=3000, steps=60000, terminal_steps=1000, starts=20000, rows_tested=100, impossible=3000)
CASE_LIMIT = 200
P = 1e-10
MOVES = ((-1, 0), (1, 0), (0, -1), (0, 1))


def check_rows(m, p, what):
    t = p.sum(-1)
    m.ok(np.all(p >= 0), what + '/negative-probability')
    zero = np.all(p == 0, axis=(1, 2))
    m.ok(np.all(np.isclose(t[~zero], 1., atol=1e-12)), what + '/rows-not-distributions', str(t[~zero].min(initial=1)))
    m.event('rows', t.size)


def compare(m, mdp, p, r, mu, gamma, horizon, what):
    m.ok(mdp.p.shape == p.shape and mdp.r.shape == p.shape, what + '/shape', str((mdp.p.shape, p.shape)))
    check_rows(m, np.asarray(mdp.p), what)
    m.close(mdp.p, p, what + '/transitions', str(np.argwhere(~np.isclose(mdp.p, p))[:4]), rtol=1e-12, atol=1e-13)
    poss = p > 0
    m.event('impossible', int((~poss).sum()))
    m.ok(np.array_equal(np.asarray(mdp.r)[poss], r[poss]), what + '/rewards',
         str([(x.tolist(), mdp.r[tuple(x)], r[tuple(x)]) for x in np.argwhere(poss & (np.asarray(mdp.r) != r))[:4]]))
    if mu is None:
        m.ok(mdp.mu is None, what + '/start')
    else:
        m.close(mdp.mu, mu, what + '/start', '', rtol=1e-12)
    i = mdp.info
    m.ok(isinstance(i.observation_space, Discrete) and i.observation_space.n == p.shape[0] and i.action_space.n == p.shape[1],
         what + '/spaces')
    m.eq((i.gamma, i.horizon), (gamma, horizon), what + '/info', '')
    m.seen(what, p.shape[0], int(poss.sum()))


def sample(m, rng, mdp, p, r, mu, n, what):
    """Steps the MDP; p, r, mu are the reference matrices."""
    np.random.seed(rng.randint(2 ** 31 - 1))
    ns, na = p.shape[:2]
    term = np.all(p == 0, axis=(1, 2))
    live = np.flatnonzero(~term)
    counts = np.zeros_like(p)
    starts = np.zeros(ns)
    s = None
    held = []
    for t in range(n):
        if s is None:
            if rng.rand() < .3:
                st = np.array([rng.choice(live)])
                o = mdp.reset(st)[0]
                m.ok(np.array_equal(o, st), what + '/given-start')
            else:
                o = mdp.reset()[0]
                m.ok(np.shape(o) == (1,) and 0 <= o[0] < ns, what + '/start-space')
                starts[int(o[0])] += 1
            s = int(o[0])
            if term[s]:
                s = None
                continue
        a = rng.randint(na)
        o, rew, ab, info = mdp.step(np.array([a]))
        m.ok(np.shape(o) == (1,) and isinstance(info, dict), what + '/observation-shape')
        j = int(o[0])
        m.event('steps')
        m.ok(p[s, a, j] > 0, what + '/impossible-transition', str((s, a, j)))
        m.eq(float(rew), float(r[s, a, j]), what + '/reward-of-transition', str((s, a, j)))
        m.eq(bool(ab), bool(term[j]), what + '/terminal-flag', str((s, a, j)))
        counts[s, a, j] += 1
        held.append((o, j))
        if term[j]:
            m.event('terminal_steps')
        s = None if term[j] or rng.rand() < .02 else j
        if len(held) > 500:
            m.ok(all(x[0] == y for x, y in held), what + '/observation-altered-later')
            held = []

    def chi(obs, prob):
        ok = prob > 0
        m.ok(obs[~ok].sum() == 0, what + '/support')
        e = prob[ok] * obs.sum()
        o = obs[ok]
        big = e >= 8
        if big.sum() + (not big.all()) < 2:
            return
        o = np.append(o[big], o[~big].sum()) if not big.all() else o
        e = np.append(e[big], e[~big].sum()) if not big.all() else e
        if e.min() < 5:
            o, e = o[:-1], e[:-1]
            o = np.append(o, obs.sum() - o.sum())
            e = np.append(e, obs.sum() - e.sum())
            if e[-1] < 5:
                return
        m.ok(stats.chisquare(o, e * o.sum() / e.sum()).pvalue > P, what + '/frequencies', f'{o} expected {e}')
        m.event('rows_tested')
    for i in live:
        for a in range(na):
            if counts[i, a].sum() >= 30:
                chi(counts[i, a], p[i, a])
    m.event('starts', int(starts.sum()))
    chi(starts, np.full(ns, 1. / ns) if mu is None else mu)


def chain(m, rng, n):
    ns = rng.randint(1, 12)
    goals = rng.choice(ns, rng.randint(1, min(ns, 3) + 1), replace=False).tolist()
    prob, rew = float(rng.choice([.8, 1., .5, rng.rand()])), float(rng.choice([1., -3., rng.randn()]))
    mu = None if rng.rand() < .5 else rng.dirichlet(np.ones(ns))
    kw = {} if rng.rand() < .5 else dict(gamma=.7, horizon=13)
    mdp = generate_simple_chain(ns, list(goals), prob, rew, **({} if mu is None else dict(mu=mu.copy())), **kw)
    p, r = np.zeros((ns, 2, ns)), np.zeros((ns, 2, ns))
    for i in range(ns):
        for a, d in ((0, 1), (1, -1)):
            j = i + d
            if 0 <= j < ns:
                p[i, a, j] += prob
                p[i, a, i] += 1 - prob
                if j in goals:
                    r[i, a, j] = rew
            else:
                p[i, a, i] = 1.
    compare(m, mdp, p, r, mu, kw.get('gamma', .9), kw.get('horizon', 100), 'chain')
    m.event('chains')
    sample(m, rng, mdp, p, r, mu, n, 'chain')


def random_map(rng, cells, probs, need, border):
    while True:
        H, W = rng.randint(1, 6), rng.randint(2, 7)
        g = rng.choice(list(cells), (H, W), p=probs)
        if border:
            g = np.pad(g, 1, constant_values='#')
        flat = ''.join(g.ravel())
        if all(flat.count(c) >= lo for c, lo in need.items()):
            return g


def write(g, newline, d):
    path = os.path.join(d, 'map.txt')
    with open(path, 'w') as f:
        f.write('\n'.join(''.join(r) for r in g) + ('\n' if newline else ''))
    return path


def grid(m, rng, n):
    g = random_map(rng, '.#*SG', [.5, .2, .1, .1, .1], dict(S=1, G=1), rng.rand() < .5)
    prob, pos, neg = float(rng.choice([.9, 1., rng.uniform(.1, 1)])), float(rng.randint(1, 20)), float(-rng.randint(1, 20))
    kw = {} if rng.rand() < .5 else dict(gamma=.8, horizon=55)
    with tempfile.TemporaryDirectory() as d:
        mdp = generate_grid_world(write(g, rng.rand() < .7, d), prob, pos, neg, **kw)
    idx = {}
    for y in range(g.shape[0]):
        for x in range(g.shape[1]):
            if g[y, x] != '#':
                idx[y, x] = len(idx)
    ns = len(idx)
    p, r, mu = np.zeros((ns, 4, ns)), np.zeros((ns, 4, ns)), np.zeros(ns)
    for (y, x), i in idx.items():
        if g[y, x] == 'S':
            mu[i] = 1.
        if g[y, x] in '.S':
            for a, (dy, dx) in enumerate(MOVES):
                c = (y + dy, x + dx)
                if c in idx:
                    p[i, a, idx[c]] += prob
                    p[i, a, i] += 1 - prob
                    r[i, a, idx[c]] = {'G': pos, '*': neg}.get(g[c], 0.)
                else:
                    p[i, a, i] = 1.
    mu /= mu.sum()
    compare(m, mdp, p, r, mu, kw.get('gamma', .9), kw.get('horizon', 100), 'grid')
    m.event('grids')
    sample(m, rng, mdp, p, r, mu, n, 'grid')


def taxi(m, rng, n):
    while True:
        g = random_map(rng, '.#FSG', [.5, .15, .15, .1, .1], dict(S=1, G=1, F=1), rng.rand() < .5)
        F = [tuple(c) for c in np.argwhere(g == 'F')]
        if len(F) <= 3:
            break
    prob = float(rng.choice([.9, 1., rng.uniform(.1, 1)]))
    rew = tuple(float(v) for v in rng.randint(0, 30, len(F) + 1))
    kw = {} if rng.rand() < .5 else dict(gamma=.8, horizon=55)
    with tempfile.TemporaryDirectory() as d:
        mdp = generate_taxi(write(g, rng.rand() < .7, d), prob=prob, rew=rew, **kw)
    cells = [(y, x) for y in range(g.shape[0]) for x in range(g.shape[1]) if g[y, x] != '#']
    idx = {c: i for i, c in enumerate(cells)}
    nc, nf = len(cells), len(F)
    ns = nc * 2 ** nf
    p, r, mu = np.zeros((ns, 4, ns)), np.zeros((ns, 4, ns)), np.zeros(ns)
    for k in range(2 ** nf):
        have = {f for b, f in enumerate(F) if k >> (nf - 1 - b) & 1}
        for (y, x), i in idx.items():
            if k == 0 and g[y, x] == 'S':
                mu[i] = 1.
            if g[y, x] == 'G' or (g[y, x] == 'F' and (y, x) not in have):
                continue  # the goal ends the episode; nobody stands on an uncollected passenger
            s = k * nc + i
            for a, mv in enumerate(MOVES):
                slips = [(0, 1), (0, -1)] if mv[0] else [(1, 0), (-1, 0)]
                for (dy, dx), w in [(mv, prob)] + [(q, .5 * (1 - prob)) for q in slips]:
                    c = (y + dy, x + dx)
                    if c not in idx:
                        p[s, a, s] += w
                        continue
                    k2 = k
                    if c in F and c not in have:
                        k2 = k | 1 << (nf - 1 - F.index(c))
                    j = k2 * nc + idx[c]
                    p[s, a, j] += w
                    if g[c] == 'G':
                        r[s, a, j] = rew[len(have)]
    mu /= mu.sum()
    compare(m, mdp, p, r, mu, kw.get('gamma', .99), kw.get('horizon', np.inf), 'taxi')
    m.event('taxis')
    sample(m, rng, mdp, p, r, mu, n, 'taxi')


def finite(m, rng, n):
    ns, na = rng.randint(2, 9), rng.randint(1, 5)
    p = rng.dirichlet(np.full(ns, .5), (ns, na)) * (rng.rand(ns, na, ns) < .7)
    p[..., 0] += 1e-3
    p /= p.sum(-1, keepdims=True)
    term = rng.rand(ns) < .25
    term[0] = False
    p[term] = 0
    r = rng.randn(ns, na, ns)
    mu = None if rng.rand() < .4 else rng.dirichlet(np.ones(ns)) * (rng.rand(ns) < .8) + np.eye(ns)[0] * .1
    if mu is not None:
        mu /= mu.sum()
    p0, r0 = p.copy(), r.copy()
    kw = {} if rng.rand() < .5 else dict(gamma=.6, horizon=9)
    mdp = FiniteMDP(p, r, mu, **kw)
    compare(m, mdp, p0, r0, mu, kw.get('gamma', .9), kw.get('horizon', np.inf), 'finite')
    sample(m, rng, mdp, p0, r0, mu, n, 'finite')
    m.ok(np.array_equal(p, p0) and np.array_equal(r, r0), 'finite/matrices-modified')


def cases(tier, rng):
    q = 3 if tier == 'quick' else 40
    for _ in range(60 * q):
        yield 'chain', dict(n=700)
        yield 'grid', dict(n=700)
        yield 'taxi', dict(n=700)
    for _ in range(12 * q):
        yield 'finite', dict(n=8000)
        yield 'grid', dict(n=8000)
