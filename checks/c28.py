"""C28: feature maps."""
import itertools
import math

import numpy as np
import torch
from scipy import stats

from mushroom_rl.features import Features
from mushroom_rl.features.features import get_action_features
from mushroom_rl.features.basis import GaussianRBF, PolynomialBasis, FourierBasis
from mushroom_rl.features.tensors import GaussianRBFTensor, VonMisesBFTensor, ConstantTensor, RandomFourierBasis
from mushroom_rl.features.tiles import Tiles, VoronoiTiles
from mushroom_rl.utils.features import uniform_grid

PROPERTY = 'C28'
RULE = ('random feature maps of every kind (explicit and generated, restricted to some input dimensions, one to many features, several '
        'inputs to be joined) evaluated on single inputs, batches of one and larger batches, at random points, centres, range ends '
        'and their floating-point neighbours, and compared with the defining formula; tilings are additionally checked for exactly '
        'one active tile per tiling inside, none outside, tiles being the stated boxes; state-action features by block')
NEED = dict(evaluations=4000, gaussian=300, tensor=300, vonmises=150, fourier=150, polynomial=150, random_fourier=80, tiles=1500,
            tiles_outside=200, tiles_edge=300, voronoi=300, functional=60, action_features=300, single_feature=30, batches_of_one=100,
            grids=40)
CASE_LIMIT = 120


def apply(m, phi, xs, want, key, rtol=1e-9, atol=1e-12):
    """evaluates on the batch, on each input alone, on a batch of one and with the input split in two"""
    want = np.asarray(want)
    m.eq(int(phi.size), want.shape[1], key + '/size', '')
    x0 = xs.copy()
    if len(xs) > 1:
        got = np.asarray(phi(xs))
        m.ok(got.shape == want.shape, key + '/batch-shape', str((got.shape, want.shape)))
        m.close(got, want, key + '/batch', '', rtol=rtol, atol=atol)
    for x, w in zip(xs, want):
        g = np.asarray(phi(x))
        m.ok(g.shape == w.shape, key + '/single-shape', str((g.shape, w.shape)))
        m.close(g, w, key + '/single', str(x), rtol=rtol, atol=atol)
        m.event('evaluations')
    m.close(np.ravel(phi(xs[:1])), want[0], key + '/batch-of-one', '', rtol=rtol, atol=atol)
    m.event('batches_of_one')
    if xs.shape[1] > 1:
        c = 1 + len(xs) % (xs.shape[1] - 1)
        m.close(np.ravel(phi(xs[:, :c], xs[:, c:])), want.ravel(), key + '/joined-inputs', '', rtol=rtol, atol=atol)
        m.close(np.ravel(phi(xs[0, :c], xs[0, c:])), want[0], key + '/joined-single', '', rtol=rtol, atol=atol)
    m.ok(np.array_equal(xs, x0), key + '/input-modified')
    m.event('single_feature', int(want.shape[1] == 1))
    m.seen(key, want.shape[1], len(xs))


def grid_ref(n, low, high, eta, cyclic):
    axes, w = [], []
    for k, a, b in zip(n, low, high):
        if k == 1:
            axes.append([(a + b) / 2])
            w.append(abs(b - a) / 2)
        else:
            e = b - abs(b - a) / k if cyclic else b
            axes.append([a + (e - a) * i / (k - 1) for i in range(k)])
            w.append((1 + eta) * abs(e - a) / k)
    pts = [tuple(reversed(p)) for p in itertools.product(*reversed(axes))]  # first dimension fastest
    return np.array(pts), np.array(w)


def setup(rng, dims_ok=True):
    d = rng.randint(1, 5)
    if dims_ok and rng.rand() < .5:
        k = rng.randint(1, d + 1)
        dims = [int(v) for v in rng.permutation(d)[:k]]
    else:
        k, dims = d, None
    low = rng.uniform(-3, 0, k)
    high = low + rng.uniform(.5, 4, k)
    return d, k, dims, low, high


def sel(xs, dims):
    return xs if dims is None else xs[:, dims]


def gaussian(m, rng, tensor, generated):
    d, k, dims, low, high = setup(rng)
    eta = float(rng.choice([.25, .6]))
    norm = tensor and rng.rand() < .4
    if generated:
        n = [int(v) for v in rng.randint(1, 4, k)]
        mu, w = grid_ref(n, low, high, eta, False)
        sc = np.tile(2 * (w / 3) ** 2, (len(mu), 1))
        kw = {} if eta == .25 else dict(eta=eta)
        if dims is not None:
            kw['dimensions'] = dims
        if norm:
            kw['normalized'] = True
        phi = Features(tensor_list=GaussianRBFTensor.generate(n, low, high, **kw)) if tensor else \
            Features(basis_list=GaussianRBF.generate(n, low, high, **kw))
    else:
        c = rng.randint(1, 5)
        mu = rng.uniform(low, high, (c, k))
        if tensor:
            s1 = rng.uniform(.2, 3, k)
            sc = np.tile(s1, (c, 1))
            phi = Features(tensor_list=[GaussianRBFTensor(mu, s1, dims, norm)])
        else:
            sc = rng.uniform(.2, 3, (c, k))
            phi = Features(basis_list=[GaussianRBF(mu[i], sc[i], dims) for i in range(c)])
    xs = rng.uniform(-4, 5, (rng.randint(1, 8), d))
    xs[:, dims if dims is not None else slice(None)] = rng.uniform(low - .5, high + .5, (len(xs), k))
    if rng.rand() < .5:
        xs[0, dims if dims is not None else slice(None)] = mu[rng.randint(len(mu))]
    z = sel(xs, dims)
    want = np.array([[math.exp(-sum((x[j] - c[j]) ** 2 / s[j] for j in range(k))) for c, s in zip(mu, sc)] for x in z])
    if norm:
        far = xs.copy()
        far[:, dims if dims is not None else slice(None)] = mu.max(0) + 40 * np.sqrt(sc.max())
        m.ok(np.all(np.asarray(phi(far)) == 0), 'gaussian-tensor-far', 'normalized features where every basis vanishes')
        t = want.sum(1, keepdims=True)
        if t.min() < 1e-15:
            return
        want = want / t
    tol = dict(rtol=2e-3, atol=2e-6) if tensor else {}
    apply(m, phi, xs, want, 'gaussian' + ('-tensor' if tensor else ''), **tol)
    m.event('tensor' if tensor else 'gaussian')


def vonmises(m, rng):
    d, k, dims, low, high = setup(rng)
    eta = float(rng.choice([.25, .6]))
    norm = rng.rand() < .4
    if rng.rand() < .6:
        n = [int(v) for v in rng.randint(1, 5, k)]
        mu, w = grid_ref(n, low, high, eta, True)
        sc = w
        kw = dict(eta=eta) if eta != .25 else {}
        if dims is not None:
            kw['dimensions'] = dims
        if norm:
            kw['normalized'] = True
        phi = Features(tensor_list=VonMisesBFTensor.generate(n, low, high, **kw))
    else:
        mu, sc = rng.uniform(low, high, (rng.randint(1, 5), k)), rng.uniform(.2, 3, k)
        phi = Features(tensor_list=[VonMisesBFTensor(mu, sc, dims, norm)])
    xs = rng.uniform(-4, 5, (rng.randint(1, 8), d))
    z = sel(xs, dims)
    want = np.array([[math.exp(sum((math.cos(2 * math.pi * (x[j] - c[j])) - 1) / sc[j] for j in range(k))) for c in mu] for x in z])
    if norm:
        t = want.sum(1, keepdims=True)
        if t.min() < 1e-15:
            return
        want = want / t
    apply(m, phi, xs, want, 'vonmises', rtol=5e-3, atol=2e-5)
    m.event('vonmises')


def fourier(m, rng):
    d, k, dims, low, high = setup(rng)
    n = int(rng.randint(0, 4)) if k < 4 else 1
    phi = Features(basis_list=FourierBasis.generate(low, high, n, **({} if dims is None else dict(dimensions=dims))))
    xs = rng.uniform(-4, 5, (rng.randint(1, 8), d))
    z = sel(xs, dims)
    cs = [tuple(reversed(c)) for c in itertools.product(range(n + 1), repeat=k)]
    want = np.array([[math.cos(math.pi * sum(c[j] * (x[j] - low[j]) / (high[j] - low[j]) for j in range(k))) for c in cs] for x in z])
    apply(m, phi, xs, want, 'fourier', atol=1e-9)
    c = rng.randn(k)
    one = Features(basis_list=[FourierBasis(low, high - low, c, dims)])
    want = np.array([[math.cos(math.pi * sum(c[j] * (x[j] - low[j]) / (high[j] - low[j]) for j in range(k)))] for x in z])
    apply(m, one, xs, want, 'fourier-one', atol=1e-9)
    m.event('fourier')


def polynomial(m, rng):
    d = rng.randint(1, 5)
    deg = rng.randint(0, 5 if d < 4 else 4)
    norm = rng.rand() < .4
    low = rng.uniform(-3, 0, d)
    high = low + rng.uniform(.5, 4, d)
    kw = dict(low=low, high=high) if norm else {}
    basis = PolynomialBasis.generate(deg, d, **kw)
    phi = Features(basis_list=basis)
    xs = rng.uniform(-2, 2, (rng.randint(1, 7), d))
    z = (xs - (low + high) / 2) / ((high - low) / 2) if norm else xs
    exps = [e for e in itertools.product(range(deg + 1), repeat=d) if sum(e) <= deg]
    m.eq(int(phi.size), len(exps), 'polynomial/number', f'degree {deg} in {d} variables')
    got = np.array([np.ravel(phi(x)) for x in xs])
    want = np.array([[float(np.prod([x[j] ** e[j] for j in range(d)])) for e in exps] for x in z])
    m.close(got[:, 0], np.ones(len(xs)), 'polynomial/constant-first', '')
    # every monomial exactly once, in any order: compare after sorting at each of several random points
    probe = rng.uniform(.5, 2, (3, d)) if not norm else rng.uniform(low, high, (3, d))
    zp = (probe - (low + high) / 2) / ((high - low) / 2) if norm else probe
    for x, y in zip(probe, zp):
        a = np.sort(np.ravel(phi(x)))
        b = np.sort([float(np.prod([y[j] ** e[j] for j in range(d)])) for e in exps])
        m.close(a, b, 'polynomial/monomials', str((deg, d)), rtol=1e-9, atol=1e-10)
        m.event('evaluations')
    m.close(np.sort(got, 1), np.sort(want, 1), 'polynomial/values', '', rtol=1e-9, atol=1e-9)
    batch = np.asarray(phi(xs))
    m.close(np.ravel(batch), got.ravel(), 'polynomial/batch', '')
    dims = [int(v) for v in rng.permutation(d)[:rng.randint(1, d + 1)]]
    degs = [int(v) for v in rng.randint(1, 4, len(dims))]
    one = Features(basis_list=[PolynomialBasis(dims, degs, **kw), PolynomialBasis()])
    apply(m, one, xs, np.array([[float(np.prod([x[i] ** e for i, e in zip(dims, degs)])), 1.] for x in z]), 'polynomial-one', atol=1e-9)
    m.event('polynomial')


def random_fourier(m, rng):
    d, n = rng.randint(1, 5), rng.randint(1, 7)
    nu = float(rng.uniform(.3, 3))
    P, b = rng.randn(d, n), rng.uniform(-np.pi, np.pi, n)
    lst = [RandomFourierBasis(P, b, nu)]
    const = rng.rand() < .5
    if const:
        lst.append(ConstantTensor())
    xs = rng.randn(rng.randint(1, 8), d)
    want = np.sin(xs @ P / nu + b)
    if const:
        want = np.hstack([want, np.ones((len(xs), 1))])
    apply(m, Features(tensor_list=lst), xs, want, 'random-fourier', rtol=1e-3, atol=2e-5)
    apply(m, Features(tensor_list=[ConstantTensor()]), xs, np.ones((len(xs), 1)), 'constant')
    np.random.seed(rng.randint(2 ** 31 - 1))
    bias = bool(rng.randint(2))
    tl = RandomFourierBasis.generate(nu, 2000, 2, **({} if bias and rng.rand() < .5 else dict(use_bias=bias)))
    g = Features(tensor_list=tl)
    m.eq(int(g.size), 2000, 'random-fourier/generated-size', '')
    y0 = np.asarray(g(np.zeros(2)))
    m.ok((y0[-1] == 1.) if bias else (abs(y0[-1]) < 1), 'random-fourier/constant')
    y0 = y0[:-1] if bias else y0
    m.ok(stats.kstest(np.arcsin(np.clip(y0, -1, 1)), lambda t: (t + np.pi / 2) / np.pi).pvalue > 1e-10, 'random-fourier/phases')
    # small displacement: the slope is P cos(phase) / nu
    h = 1e-2
    y1 = np.asarray(g(np.array([h, 0.])))[:len(y0)]
    c = np.sqrt(np.clip(1 - y0 ** 2, 0, 1))
    ok = c > .5
    slopes = np.abs((y1 - y0)[ok] / h / c[ok]) * nu
    m.ok(.45 < np.median(slopes) < .9, 'random-fourier/weights-scale', str(np.median(slopes)))
    m.event('random_fourier')


def tiles(m, rng, generated):
    d, k, dims, low, high = setup(rng, dims_ok=not generated)
    if generated:
        n_t = int(rng.choice([1, 2, 3, 5, -1]))
        n = [int(v) for v in rng.randint(2, 6 if n_t != -1 or k > 2 else 24, k)]
        unif = bool(rng.randint(2))
        tl = Tiles.generate(n_t, n, low, high, **(dict(uniform=True) if unif else {}))
        if n_t == -1:
            mm = max(math.ceil(math.log2(4 * k)), math.ceil(math.log2(max(n))))
            n_t = mm ** 2
        m.eq(len(tl), n_t, 'tiles/number-of-tilings', '')
        L = (high - low) / (np.array(n) - (n_t - 1) / n_t)
        boxes = []
        for i in range(n_t):
            sh = np.array([(i * (1 if unif else 2 * j + 1)) % n_t for j in range(k)])
            a = low + (-n_t + 1 + sh) / n_t * L
            boxes.append((a, a + L * n, n))
    else:
        boxes, tl = [], []
        for _ in range(rng.randint(1, 4)):
            a = rng.uniform(-3, 0, k)
            b = a + rng.uniform(.5, 4, k)
            if rng.rand() < .3:
                a, b = np.round(a, 1), np.round(b + .05, 1)
            n = [int(v) for v in rng.randint(1, 6, k)]
            if k == 1 and rng.rand() < .5:
                rg, nn = [a[0], b[0]], n[0]
            else:
                rg = [[x, y] for x, y in zip(a, b)]
                nn = n
                if rng.rand() < .3:
                    n = [n[0]] * k
                    nn = n[0]
            tl.append(Tiles(rg, nn, **({} if dims is None else dict(state_components=dims))))
            boxes.append((a, b, n))
    phi = Features(tilings=tl if len(tl) > 1 or rng.rand() < .5 else tl[0])
    sizes = [int(np.prod(n)) for _, _, n in boxes]
    m.eq(int(phi.size), sum(sizes), 'tiles/size', '')
    m.eq([t.size for t in tl], sizes, 'tiles/tiling-size', '')
    for _ in range(12):
        c = rng.randint(5)
        x = rng.uniform(-4, 5, d)
        cols = dims if dims is not None else list(range(d))
        a, b, n = boxes[rng.randint(len(boxes))]
        if c < 3:
            x[cols] = rng.uniform(low, high) if generated else rng.uniform(a, b)
        elif c == 3:  # range ends and their neighbours, inner tile borders
            x[cols] = rng.uniform(a, b)
            j = rng.randint(k)
            x[cols[j]] = [a[j], np.nextafter(a[j], -np.inf), b[j], np.nextafter(b[j], -np.inf), np.nextafter(b[j], np.inf),
                          a[j] + (b[j] - a[j]) * rng.randint(n[j]) / n[j]][rng.randint(6)]
            m.event('tiles_edge')
        z = x[cols]
        got = np.ravel(phi(x))
        m.ok(set(np.unique(got)) <= {0., 1.}, 'tiles/values')
        idx = sorted(int(v) for v in np.ravel(phi.compute_indexes(x)))
        m.eq(idx, sorted(np.flatnonzero(got).tolist()), 'tiles/indexes', str(x))
        off = 0
        for (a, b, n), s in zip(boxes, sizes):
            act = np.flatnonzero(got[off:off + s])
            off += s
            near_end = generated and np.any((np.abs(z - a) < 1e-9) | (np.abs(z - b) < 1e-9))
            if near_end:  # the ends of a generated tiling are known only up to rounding
                m.ok(len(act) <= 1, 'tiles/more-than-one')
                continue
            ins = np.all((a <= z) & (z < b))
            if generated and np.all((low <= z) & (z <= high)):
                m.ok(len(act) == 1, 'tiles/uncovered', str((z, low, high)))
            m.eq(len(act), int(ins), 'tiles/active-per-tiling', f'{z} in {a} {b} {n}')
            if not ins:
                m.event('tiles_outside')
                continue
            i = int(act[0])
            for j in range(k):  # first component fastest
                i, cj = divmod(i, n[j])
                lo, hi = a[j] + (b[j] - a[j]) * cj / n[j], a[j] + (b[j] - a[j]) * (cj + 1) / n[j]
                m.ok(lo - 1e-9 <= z[j] <= hi + 1e-9, 'tiles/wrong-tile', f'{z} in {a} {b} {n}: component {j} tile {cj}')
            m.event('tiles')
        m.event('evaluations')
        if rng.rand() < .3:
            B = np.stack([x, rng.uniform(-4, 5, d)])
            m.close(np.asarray(phi(B)), np.stack([np.ravel(phi(r)) for r in B]), 'tiles/batch', '')
            ci = phi.compute_indexes(B)
            m.ok(len(ci) == 2 and all(sorted(int(v) for v in e) == sorted(np.flatnonzero(phi(r)).tolist()) for e, r in zip(ci, B)),
                 'tiles/batch-indexes')
    m.seen('tiles', k, len(boxes), tuple(sizes))


def voronoi(m, rng):
    d = rng.randint(1, 4)
    gen = rng.randint(3)
    np.random.seed(rng.randint(2 ** 31 - 1))
    low, high = rng.uniform(-2, 0, d), rng.uniform(1, 2, d)
    if gen == 0:
        protos = [rng.randn(rng.randint(1, 6), d) for _ in range(rng.randint(1, 4))]
        tl = [VoronoiTiles(p.copy()) for p in protos]
    else:
        nt, npr = rng.randint(1, 4), rng.randint(1, 6)
        tl = VoronoiTiles.generate(nt, npr, low=low, high=high) if gen == 1 else VoronoiTiles.generate(nt, npr, mu=low, sigma=high)
        m.ok(len(tl) == nt and all(t.size == npr for t in tl), 'voronoi/generated-size')
        many = int(rng.randint(1, 40))
        auto = VoronoiTiles.generate(-1, many, low=low, high=high) if gen == 1 else VoronoiTiles.generate(-1, many, mu=low, sigma=high)
        m.eq(len(auto), max(math.ceil(math.log2(4 * d)), math.ceil(math.log2(many))) ** 2, 'voronoi/number-of-tilings', f'{many} prototypes in {d} dimensions')
        m.event('automatic_tilings')
        protos = None
    phi = Features(tilings=tl)
    sizes = [t.size for t in tl]
    m.eq(int(phi.size), sum(sizes), 'voronoi/size', '')
    for _ in range(10):
        x = rng.uniform(-4, 4, d)
        got = np.ravel(phi(x))
        off = 0
        for t, s in enumerate(sizes):
            act = np.flatnonzero(got[off:off + s])
            m.eq(len(act), 1, 'voronoi/active-per-tiling', '')
            if protos is not None:
                dist = np.sqrt(((protos[t] - x) ** 2).sum(1))
                m.ok(dist[act[0]] <= dist.min() + 1e-9, 'voronoi/not-nearest')
            off += s
            m.event('voronoi')
        m.eq(sorted(int(v) for v in np.ravel(phi.compute_indexes(x))), np.flatnonzero(got).tolist(), 'voronoi/indexes', '')
        m.event('evaluations')
    if gen:
        big = VoronoiTiles.generate(1, 3000, low=low, high=high)[0] if gen == 1 else VoronoiTiles.generate(1, 3000, mu=low, sigma=high)[0]
        # the prototype nearest to itself: recover the prototypes by distance queries is not possible, use the generator's draws
        p = np.asarray(big._prototypes) if hasattr(big, '_prototypes') else None
        if p is not None and p.shape == (3000, d):
            for j in range(d):
                dist = ('uniform', (low[j], high[j] - low[j])) if gen == 1 else ('norm', (low[j], high[j]))
                m.ok(stats.kstest(p[:, j], dist[0], args=dist[1]).pvalue > 1e-10, 'voronoi/prototype-distribution')


def functional(m, rng):
    d, o = rng.randint(1, 5), rng.randint(1, 4)
    W = rng.randn(d, o)
    xs = rng.randn(rng.randint(1, 6), d)
    apply(m, Features(n_outputs=o, function=lambda x: np.tanh(x @ W)), xs, np.tanh(xs @ W), 'functional')
    apply(m, Features(n_outputs=d), xs, xs, 'identity')
    m.event('functional')


def action_features(m, rng):
    for _ in range(10):
        F, na, N = rng.randint(1, 6), rng.randint(1, 5), rng.randint(1, 6)
        ph, a = rng.randn(N, F), rng.randint(na, size=(N, 1))
        p0, a0 = ph.copy(), a.copy()
        want = np.zeros((N, na * F))
        for i in range(N):
            want[i, a[i, 0] * F:(a[i, 0] + 1) * F] = ph[i]
        got = get_action_features(ph, a, na)
        m.ok(np.shape(got) == want.shape, 'action/shape')
        m.ok(np.array_equal(got, want), 'action/batch')
        for i in range(N):
            m.ok(np.array_equal(get_action_features(ph[i], a[i], na), want[i]), 'action/single')
            m.event('action_features')
        m.ok(np.array_equal(ph, p0) and np.array_equal(a, a0), 'action/input-modified')


def grids(m, rng):
    for _ in range(6):
        k = rng.randint(1, 4)
        n = [int(v) for v in rng.randint(1, 5, k)]
        low = rng.uniform(-3, 0, k)
        high = low + rng.uniform(.5, 4, k)
        eta, cyc = float(rng.uniform(.05, .95)), bool(rng.randint(2))
        g, w = uniform_grid(n, low, high, eta, cyc)
        rg, rw = grid_ref(n, low, high, eta, cyc)
        m.close(w, rw, 'grid/widths', '', rtol=1e-9)
        m.ok(g.shape == rg.shape, 'grid/shape')
        m.close(g, rg, 'grid/centres', str((n, cyc)), rtol=1e-9, atol=1e-9)
        m.event('grids')


def cases(tier, rng):
    q = 8 if tier == 'quick' else 150
    for _ in range(40 * q):
        for t, g in itertools.product((False, True), repeat=2):
            yield 'gaussian', dict(tensor=t, generated=g)
        yield 'vonmises', {}
        yield 'vonmises', {}
        yield 'fourier', {}
        yield 'fourier', {}
        yield 'polynomial', {}
        yield 'polynomial', {}
        yield 'random_fourier', {}
        yield 'functional', {}
        yield 'action_features', {}
        yield 'voronoi', {}
        yield 'grids', {}
        yield 'tiles', dict(generated=True)
        yield 'tiles', dict(generated=False)
        yield 'tiles', dict(generated=False)
