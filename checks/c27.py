"""C27: approximators."""
import itertools

import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F
from sklearn.ensemble import ExtraTreesRegressor
from sklearn.linear_model import LinearRegression

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.ensemble import Ensemble
from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.approximators.parametric import LinearApproximator, TorchApproximator, NumpyTorchApproximator, CMAC
from mushroom_rl.approximators.parametric.networks.linear_network import LinearNetwork
from mushroom_rl.approximators.table import Table
from mushroom_rl.features import Features
from mushroom_rl.features.tiles import Tiles

PROPERTY = 'C27'
RULE = ('random tables, linear, tile-coding, neural and scikit-learn regressors, as generic, per-action and all-action regressors and as '
        'ensembles, driven by random weights, single inputs, batches of one and more, and fits; predictions are compared with the '
        'function of the weights evaluated independently, derivatives with finite differences or an independent gradient, fits with '
        'least squares, table models and recorded gradient steps (the batches actually shown to a network are recorded by a hook '
        'and must cover the training samples once per epoch)')
NEED = dict(table_cells=3000, table_predictions=1000, linear_fits=80, linear_predictions=300, derivatives=300, cmac_fits=60,
            cmac_outside=20, torch_steps=400, torch_minibatches=200, weighted_fits=20, early_stops=15, ensembles=60, action_regressors=60,
            single_inputs=300, weight_roundtrips=150, sklearn=20, caller_vectors=150)
CASE_LIMIT = 120


# ---------------------------------------------------------------- tables
def table(m, rng, models):
    shape = tuple(int(v) for v in rng.randint(1, 6, rng.randint(2, 4)))
    if int(np.prod(shape)) == 1:
        shape = (2,) + shape[1:]
    init = float(rng.choice([0., 1.5, -2.]))
    kw = {} if init == 0. and rng.rand() < .5 else dict(initial_value=init)
    init = kw.get('initial_value', 0.)
    if models:
        pred = rng.choice(['mean', 'sum', 'min', 'max'])
        pk = {} if pred == 'mean' and rng.rand() < .5 else dict(prediction=str(pred))
        ens = EnsembleTable(models, shape, **kw, **pk)
        tabs = [ens[i] for i in range(models)]
        m.eq(len(ens), models, 'table/length', '')
        m.eq(ens.n_actions, shape[-1], 'table/n-actions', '')
    else:
        ens = Table(shape, **kw)
        tabs = [ens]
        pred = 'mean'
        m.eq((ens.n_actions, tuple(ens.shape)), (shape[-1], shape), 'table/shape', '')
    ref = [np.full(shape, init) for _ in tabs]

    def key(i):
        return tuple(np.array([v]) if rng.rand() < .6 else int(v) for v in i)
    for _ in range(60):
        i = tuple(int(rng.randint(n)) for n in shape)
        k = rng.randint(len(tabs))
        c = rng.randint(4)
        v = float(rng.randn())
        if c == 0:
            tabs[k][key(i)] = v
            ref[k][i] = v
        elif c == 1:
            if models:
                if rng.rand() < .5:
                    ens.fit(key(i), v, idx=k)
                    ref[k][i] = v
                else:
                    ens.fit(key(i), v)
                    for r in ref:
                        r[i] = v
            else:
                ens.fit(key(i), v)
                ref[k][i] = v
        else:
            m.close(tabs[k][key(i)], ref[k][i], 'table/entry', str((shape, i)))
            row = tabs[k][key(i[:-1]) + (slice(None),)]
            m.close(row, ref[k][i[:-1]], 'table/row', '')
        for t, r in zip(tabs, ref):
            m.ok(np.array_equal(t.table, r), 'table/other-entry-changed', str(i))
        m.event('table_cells')
    if len(shape) != 2:
        return
    agg = dict(mean=np.mean, sum=np.sum, min=np.min, max=np.max)
    for _ in range(20):
        N = rng.randint(1, 5)
        s, a = rng.randint(shape[0], size=(N, 1)), rng.randint(shape[1], size=(N, 1))
        cut = 'single' if rng.rand() < .3 else 'batch'
        if cut == 'single':
            s, a = s[0], a[0]
            N = 1
            m.event('single_inputs')
        want = [np.array([r[si] for si in np.reshape(s, -1)]) for r in ref]
        wa = [np.array([r[si, ai] for si, ai in zip(np.reshape(s, -1), np.reshape(a, -1))]) for r in ref]
        if models:
            c = rng.randint(3)
            if c == 0:
                k = int(rng.randint(models))
                gs, ga, w, u = ens.predict(s, idx=k), ens.predict(s, a, idx=k), want[k], wa[k]
            else:
                how = str(rng.choice(['mean', 'sum', 'min', 'max']))
                sel = list(range(models)) if c == 1 else sorted(int(v) for v in rng.choice(models, rng.randint(1, models + 1), replace=False))
                extra = dict(idx=sel) if c == 2 else {}
                gs = ens.predict(s, prediction=how, **extra)
                ga, var = ens.predict(s, a, prediction=how, compute_variance=True, **extra)
                w, u = agg[how]([want[j] for j in sel], 0), agg[how]([wa[j] for j in sel], 0)
                m.close(np.ravel(var), np.var([wa[j] for j in sel], 0), 'ensemble/variance', '', atol=1e-12)
                if c == 1:
                    m.close(np.ravel(ens.predict(s)), np.ravel(agg[str(pred)](want, 0)), 'ensemble/default-aggregate', str(pred))
            m.event('ensembles')
        else:
            gs, ga, w, u = ens.predict(s), ens.predict(s, a), want[0], wa[0]
        m.close(np.ravel(gs), np.ravel(w), 'table/predict', '')
        m.close(np.ravel(ga), u, 'table/predict-action', '')
        if N > 1:
            m.ok(np.shape(gs) == (N, shape[1]) and np.shape(ga) == (N,), 'table/predict-shape', str((np.shape(gs), np.shape(ga))))
        elif cut == 'single':
            m.ok(np.shape(gs) == (shape[1],), 'table/single-shape')
        m.event('table_predictions')


# ---------------------------------------------------------------- linear and CMAC
class Phi:
    def __init__(self, d, nf, seed):
        r = np.random.RandomState(seed)
        self.w, self.b = r.randn(nf, d), r.randn(nf)

    def one(self, s):
        return np.sin(self.w @ s + self.b)

    def __call__(self, x):
        return np.array([self.one(s) for s in x]) if np.ndim(x) == 2 else self.one(x)


def own_vector(m, reg, rng, predict, dtype=None):
    """weights set from a caller's vector: roundtrip, independence in both directions"""
    w = rng.randn(reg.weights_size)
    if dtype is not None:
        w = w.astype(dtype)
    keep = w.copy()
    reg.set_weights(w)
    got = np.array(reg.get_weights())
    m.ok(got.shape == (reg.weights_size,), 'weights/shape', str(got.shape))
    m.close(got, keep, 'weights/roundtrip', '', rtol=1e-6)
    before = predict()
    w[:] = 99.
    m.ok(np.array_equal(predict(), before), 'weights/aliases-caller-vector')
    out = reg.get_weights()
    if isinstance(out, np.ndarray):
        out[:] = -77.
    else:
        out.fill_(-77.)
    m.ok(np.array_equal(predict(), before), 'weights/getter-exposes-internals')
    m.event('weight_roundtrips')
    m.event('caller_vectors')
    return keep


def linear(m, rng, kind, phi):
    d = rng.randint(1, 5)
    nf = rng.randint(1, 6) if phi else d
    f = Phi(d, nf, rng.randint(10 ** 6)) if phi else None
    na = rng.randint(2, 5)
    out = 1 if kind == 'action' else na if kind == 'q' else rng.randint(1, 4)
    kw = dict(input_shape=(nf if phi else d,), output_shape=(out,))
    if phi:
        kw['phi'] = f
    if kind != 'generic':
        kw['n_actions'] = na
    reg = Regressor(LinearApproximator, **kw)
    m.ok(np.all(np.array(reg.get_weights()) == 0), 'linear/initial-weights')
    if kind != 'action' and rng.rand() < .5:
        given = rng.randn(out * nf)
        other = Regressor(LinearApproximator, weights=given, **kw)
        keep = given.copy()
        m.close(np.array(other.get_weights()), given, 'linear/given-weights', '')
        other.set_weights(rng.randn(out * nf))
        z = rng.randn(4, d)
        if kind == 'generic':
            other.fit(z, rng.randn(4, out))
        m.ok(np.array_equal(given, keep), 'linear/given-weights-changed', 'the array of initial weights was changed')
        third = Regressor(LinearApproximator, weights=given, **kw)
        given += 1.
        m.close(np.array(third.get_weights()), keep, 'linear/given-weights-shared', 'weights follow the array they were initialized with')
        m.event('given_weights')
    n_w = nf * (na if kind == 'action' else out)
    m.eq(reg.weights_size, n_w, 'linear/weights-size', '')
    fe = f if phi else (lambda x: x)
    xs = rng.randn(rng.randint(2, 7), d)
    w = own_vector(m, reg, rng, lambda: np.array(reg.predict(xs)))
    W = w.reshape(-1, nf)
    x0 = xs.copy()
    want = fe(xs) @ W.T
    got = np.asarray(reg.predict(xs))
    m.ok(got.shape == (len(xs), W.shape[0]), 'linear/predict-shape', str(got.shape))
    m.close(got, want, 'linear/predict', '')
    m.close(np.asarray(reg(xs)), want, 'linear/call', '')
    m.close(np.asarray(reg.predict(xs[:1])), want[:1], 'linear/batch-of-one', '')
    one = np.asarray(reg.predict(xs[0]))
    m.ok(one.shape == (W.shape[0],), 'linear/single-shape', str(one.shape))
    m.close(one, want[0], 'linear/single', '')
    m.event('single_inputs')
    m.event('linear_predictions', len(xs))
    if kind != 'generic':
        acts = rng.randint(na, size=(len(xs), 1))
        pa = np.asarray(reg.predict(xs, acts))
        m.ok(pa.shape == (len(xs),), 'linear/action-shape', str(pa.shape))
        m.close(pa, want[np.arange(len(xs)), acts[:, 0]], 'linear/action', str(acts.ravel()))
        m.close(float(np.asarray(reg.predict(xs[0], acts[0]))), want[0, acts[0, 0]], 'linear/single-action', '')
        if kind == 'action':
            m.event('action_regressors')
        g = np.asarray(reg.diff(xs[0], acts[0]))
        wantg = np.zeros((W.shape[0], nf))
        wantg[acts[0, 0]] = fe(xs[0])
        m.close(g.ravel(), wantg.ravel(), 'linear/derivative-action', '')
        m.event('derivatives')
    if kind != 'action':
        g = np.asarray(reg.diff(xs[0]))
        wantg = np.zeros((out * nf, out))
        for o in range(out):
            wantg[o * nf:(o + 1) * nf, o] = fe(xs[0])
        m.close(g, wantg if out > 1 else wantg[:, 0], 'linear/derivative', '')
        m.event('derivatives')
    m.ok(np.array_equal(xs, x0), 'linear/input-modified')
    if kind == 'q':
        return
    # least squares
    N = int(rng.choice([nf, nf + 3, 3 * nf + 2, max(1, nf - 1)]))
    X = rng.randn(N, d)
    if kind == 'generic':
        Y = rng.randn(N, out) if out > 1 or rng.rand() < .5 else rng.randn(N)
        X0, Y0 = X.copy(), Y.copy()
        reg.fit(X, Y)
        sol = np.linalg.lstsq(fe(X), Y.reshape(N, out), rcond=None)[0].T
        if np.linalg.cond(fe(X)) < 1e4:
            m.close(np.array(reg.get_weights()), sol.ravel(), 'linear/least-squares', '', rtol=1e-6, atol=1e-8)
            m.close(np.asarray(reg.predict(xs)), fe(xs) @ sol.T, 'linear/fitted-prediction', '', rtol=1e-6, atol=1e-8)
            m.event('linear_fits')
    else:
        Y = rng.randn(N)
        A = rng.randint(na, size=(N, 1))
        A[rng.rand(N) < .3] = 0
        X0, Y0 = X.copy(), Y.copy()
        before = np.array(reg.get_weights()).reshape(na, nf)
        reg.fit(X, A, Y)
        after = np.array(reg.get_weights()).reshape(na, nf)
        for a in range(na):
            idx = A[:, 0] == a
            if not idx.any():
                m.ok(np.array_equal(after[a], before[a]), 'action/untouched-action-changed')
            elif np.linalg.cond(fe(X[idx])) < 1e4:
                m.close(after[a], np.linalg.lstsq(fe(X[idx]), Y[idx], rcond=None)[0], 'action/least-squares', '', rtol=1e-6, atol=1e-8)
        m.event('linear_fits')
    m.ok(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'linear/data-modified')
    m.seen(kind, d, nf, out, N)


def linear_ensemble(m, rng):
    d, na, k = rng.randint(1, 4), rng.randint(2, 4), rng.randint(2, 5)
    how = str(rng.choice(['mean', 'sum', 'min', 'max']))
    act = rng.rand() < .5
    reg = Regressor(LinearApproximator, input_shape=(d,), output_shape=(1,) if act else (3,), n_models=k, prediction=how,
                    **(dict(n_actions=na) if act else {}))
    m.eq(len(reg), k, 'ensemble/length', '')
    x = rng.randn(5, d)
    X = rng.randn(4 * d + 8, d)
    agg = dict(mean=np.mean, sum=np.sum, min=np.min, max=np.max)
    per = []
    for i in range(k):  # each member is fitted on its own data
        if act:
            A = np.tile(np.arange(na), len(X))[:len(X)][:, None]
            Y = rng.randn(len(X))
            reg.fit(X, A, Y, idx=i)
            per.append(np.stack([np.linalg.lstsq(X[A[:, 0] == a], Y[A[:, 0] == a], rcond=None)[0] for a in range(na)]))
        else:
            Y = rng.randn(len(X), 3)
            reg.fit(X, Y, idx=i)
            per.append(np.linalg.lstsq(X, Y, rcond=None)[0].T)
    P = np.stack([x @ w.T for w in per])
    for i in range(k):
        m.close(np.asarray(reg.predict(x, idx=i)), P[i], 'ensemble/member', str(i), rtol=1e-6, atol=1e-8)
    m.close(np.asarray(reg.predict(x)), agg[how](P, 0), 'ensemble/default-aggregate', how, rtol=1e-6, atol=1e-8)
    for h in agg:
        m.close(np.asarray(reg.predict(x, prediction=h)), agg[h](P, 0), 'ensemble/aggregate', h, rtol=1e-6, atol=1e-8)
        m.close(np.asarray(reg.predict(x[0], prediction=h)), agg[h](P, 0)[0], 'ensemble/single', h, rtol=1e-6, atol=1e-8)
    if act:
        a = rng.randint(na, size=(5, 1))
        # aggregation happens per action value
        m.close(np.asarray(reg.predict(x, a)), agg[how](P, 0)[np.arange(5), a[:, 0]], 'ensemble/action', how, rtol=1e-6, atol=1e-8)
    Y = rng.randn(len(X)) if act else rng.randn(len(X), 3)
    if act:
        reg.fit(X, A, Y)
        w = np.stack([np.linalg.lstsq(X[A[:, 0] == a_], Y[A[:, 0] == a_], rcond=None)[0] for a_ in range(na)])
    else:
        reg.fit(X, Y)
        w = np.linalg.lstsq(X, Y, rcond=None)[0].T
    for i in range(k):
        m.close(np.asarray(reg.predict(x, idx=i)), x @ w.T, 'ensemble/fit-all', '', rtol=1e-6, atol=1e-8)
    m.event('ensembles')
    m.event('action_regressors', int(act))


def cmac(m, rng, out):
    d = rng.randint(1, 4)
    nt = int(rng.randint(1, 6))
    n_tiles = [int(v) for v in rng.randint(2, 6, d)]
    low, high = -rng.rand(d), 1 + rng.rand(d)
    tl = Tiles.generate(nt, n_tiles, low, high, uniform=bool(rng.randint(2)))
    if rng.rand() < .4:                 # tilings that cover different parts of the space
        tl = [Tiles([[float(a), float(b)] for a, b in zip(low + .4 * rng.rand(d), high - .4 * rng.rand(d))], n_tiles) for _ in range(nt)]
        m.event('cmac_partial')
    reg = Regressor(CMAC, tilings=tl, input_shape=(d,), output_shape=(out,))
    size = nt * int(np.prod(n_tiles))
    m.eq(reg.weights_size, size * out, 'cmac/weights-size', '')
    feat = Features(tilings=tl)

    def phi(x):
        return np.array([np.ravel(feat(s)) for s in x])
    N = rng.randint(1, 9)
    x = rng.uniform(low, high, (N, d))
    w = own_vector(m, reg, rng, lambda: np.array(reg.predict(x)))
    W = w.reshape(out, size)
    want = phi(x) @ W.T
    m.close(np.reshape(reg.predict(x), (N, out)), want, 'cmac/predict', '')
    one = np.asarray(reg.predict(x[0]))
    m.ok(one.shape == (out,), 'cmac/single-shape', str(one.shape))
    m.close(one, want[0], 'cmac/single', '')
    m.event('single_inputs')
    g = np.asarray(reg.diff(x[0]))
    wantg = np.zeros((out * size, out))
    for o in range(out):
        wantg[o * size:(o + 1) * size, o] = phi(x[:1])[0]
    m.close(g, wantg if out > 1 else wantg[:, 0], 'cmac/derivative', '')
    m.event('derivatives')
    for _ in range(3):
        X = rng.uniform(low, high, (rng.randint(1, 12), d))
        if rng.rand() < .3:
            X[rng.randint(len(X))] = high + 5
            m.event('cmac_outside')
        al = float(rng.choice([1., .5, .1]))
        kw = {} if al == 1. else dict(alpha=al)
        Y = rng.randn(len(X), out) if out > 1 else rng.randn(len(X))
        X0, Y0 = X.copy(), Y.copy()
        reg.fit(X, Y, **kw)
        f = phi(X)
        n_act = np.maximum(f.sum(1, keepdims=True), 1)
        err = Y.reshape(len(X), out) - f @ W.T
        hits = f.sum(0)
        W = W + al * (err.T @ (f / n_act)) / np.where(hits > 0, hits, 1)
        m.close(np.array(reg.get_weights()), W.ravel(), 'cmac/fit', '', rtol=1e-9, atol=1e-10)
        m.ok(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'cmac/data-modified')
        m.event('cmac_fits')
    m.seen('cmac', d, nt, out)


# ---------------------------------------------------------------- networks
class Net(nn.Module):
    def __init__(self, input_shape, output_shape, n_features=4, dropout=False, **kw):
        super().__init__()
        i = sum(s[0] for s in input_shape) if isinstance(input_shape[0], tuple) else input_shape[-1]
        self.a = nn.Linear(i, n_features)
        self.b = nn.Linear(n_features, output_shape[0])
        self.log = []
        self.inits = 0

    def forward(self, *x, scale=1., **kw):
        z = torch.cat([v.float() for v in x], -1)
        self.log.append((z.detach().clone(), self.training))
        return scale * self.b(torch.tanh(self.a(z)))

    def weights_init(self):
        self.inits += 1
        nn.init.constant_(self.a.weight, .1)


class QNet(Net):
    def forward(self, state, action=None, **kw):
        q = super().forward(state)
        return q if action is None else q.gather(1, action.long()).squeeze(-1)


def twin(w, i, h, o):
    """the function of the weight vector"""
    w = torch.as_tensor(w, dtype=torch.float32)
    k = [h * i, h, o * h, o]
    p, s = [], 0
    for n, sh in zip(k, [(h, i), (h,), (o, h), (o,)]):
        p.append(w[s:s + n].reshape(sh).clone().requires_grad_(True))
        s += n

    def f(x):
        x = torch.as_tensor(np.asarray(x), dtype=torch.float32)
        return torch.tanh(x @ p[0].T + p[1]) @ p[2].T + p[3]
    return f, p


def vec(g):
    return np.concatenate([np.asarray(x.detach()).ravel() for x in g])


def npy(x):
    return x.detach().numpy() if torch.is_tensor(x) else np.asarray(x)


def torch_reg(m, rng, cls, kind, two):
    h, o = rng.randint(2, 6), rng.randint(1, 4)
    na = rng.randint(2, 5)
    ins = ((2,), (3,)) if two else (rng.randint(1, 5),)
    d = 5 if two else ins[0]
    if kind == 'q':
        o = na
    C = TorchApproximator if cls == 'torch' else NumpyTorchApproximator
    lr = .1
    bs = int(rng.choice([0, 1, 3, 8]))
    kw = dict(input_shape=ins, output_shape=(o,), network=QNet if kind == 'q' else Net, n_features=h,
              optimizer=dict(**{'class': torch.optim.SGD}, params=dict(lr=lr)), loss=F.mse_loss, quiet=True)
    if bs:
        kw['batch_size'] = bs
    if kind == 'q':
        kw['n_actions'] = na
    reg = Regressor(C, **kw)
    conv = (lambda x: torch.as_tensor(x)) if cls == 'torch' else (lambda x: x)
    N = rng.randint(2, 9)
    x = rng.randn(N, d).astype(np.float32)

    def split(z):
        return [conv(z[..., :2].copy()), conv(z[..., 2:].copy())] if two else [conv(z.copy())]
    m.eq(reg.weights_size, d * h + h + h * o + o, 'torch/weights-size', '')
    w = None
    for dt in (np.float64, np.float32):
        w = own_vector(m, _Conv(reg, cls), rng, lambda: npy(reg.predict(*split(x))).copy(), dt)
    f, p = twin(w, d, h, o)
    want = f(x).detach().numpy()
    got = reg.predict(*split(x))
    m.ok(torch.is_tensor(got) == (cls == 'torch') and tuple(got.shape) == (N, o), 'torch/predict-shape', str(got.shape))
    m.close(npy(got), want, 'torch/predict', '', rtol=1e-5, atol=1e-5)
    m.close(npy(reg.predict(*split(x[:1]))), want[:1], 'torch/batch-of-one', '', rtol=1e-5, atol=1e-5)
    one = npy(reg.predict(*split(x[0])))
    m.ok(one.shape == (o,), 'torch/single-shape', str(one.shape))
    m.close(one, want[0], 'torch/single', '', rtol=1e-5, atol=1e-5)
    m.event('single_inputs')
    if kind == 'generic':
        m.close(npy(reg.predict(*split(x), scale=2.)), 2 * want, 'torch/predict-options', '', rtol=1e-5, atol=1e-5)
    else:
        a = rng.randint(na, size=(N, 1))
        m.close(npy(reg.predict(*split(x), conv(a))), want[np.arange(N), a[:, 0]], 'torch/action', '', rtol=1e-5, atol=1e-5)
        m.close(float(npy(reg.predict(*split(x[0]), conv(a[0])))), want[0, a[0, 0]], 'torch/single-action', '', rtol=1e-5, atol=1e-5)
    # derivative of every output with respect to the weights
    g = npy(reg.diff(*split(x[0])))
    wg = np.stack([vec(torch.autograd.grad(f(x[:1])[0, j], p)) for j in range(o)], -1)
    m.ok(g.shape == wg.shape, 'torch/derivative-shape', str(g.shape))
    m.close(g, wg, 'torch/derivative', '', rtol=1e-4, atol=1e-5)
    m.event('derivatives')
    # gradient steps
    net = reg.model.network
    T = int(rng.randint(1, 14))
    X = rng.randn(T, d).astype(np.float32)
    Y = rng.randn(T, o).astype(np.float32)
    A = rng.randint(na, size=(T, 1))
    fitkw = {}
    weights = None
    if kind == 'q':
        Y = Y[:, 0].copy()
        if rng.rand() < .5:
            weights = rng.uniform(.1, 2, T).astype(np.float32)
            fitkw['weights'] = conv(weights.copy()) if bs == 0 or cls == 'torch' else weights.copy()
            m.event('weighted_fits')
    ne = int(rng.choice([1, 2, 4]))
    if ne > 1:
        fitkw['n_epochs'] = ne
    frac = float(rng.choice([1., 1., .5, .7]))
    if frac < 1:
        fitkw['validation_split'] = frac
    ntr = int(np.ceil(T * frac))
    net.log.clear()
    args = split(X) + ([conv(A.copy())] if kind == 'q' else []) + [conv(Y.copy())]
    keep = [npy(z).copy() for z in args]
    reg.fit(*args, **fitkw)
    m.ok(all(np.array_equal(npy(z), c) for z, c in zip(args, keep)), 'torch/data-modified')
    log = [npy(z) for z, _ in net.log]
    per = 1 if not bs else int(np.ceil(ntr / bs))
    m.eq(len(log), per * ne, 'torch/number-of-steps', f'{T} samples {ntr} train batch {bs} epochs {ne}')
    f, p = twin(w, d, h, o)
    loss_now = []
    for e in range(ne):
        seen = []
        loss_now = []
        for b in log[e * per:(e + 1) * per]:
            idx = [int(np.flatnonzero((X == r).all(1))[0]) for r in b]
            seen += idx
            m.ok(len(idx) <= (bs or T), 'torch/batch-too-large')
            q = f(X[idx])
            y = torch.tensor(Y[idx])
            if kind == 'q':
                q = q[torch.arange(len(idx)), torch.tensor(A[idx, 0])]
            if weights is None:
                L = ((q - y) ** 2).mean()
            else:
                ww = torch.tensor(weights[idx])
                L = (((q - y) ** 2) * ww).sum() / ww.sum()
            loss_now.append(float(L))
            gr = torch.autograd.grad(L, p)
            with torch.no_grad():
                for a_, b_ in zip(p, gr):
                    a_ -= lr * b_
            m.event('torch_steps')
            m.event('torch_minibatches', int(bs > 0))
        m.eq(sorted(seen), list(range(ntr)), 'torch/epoch-coverage', '')
    m.close(npy(reg.get_weights()), vec(p), 'torch/gradient-steps', f'batch {bs}', rtol=1e-3, atol=2e-5)
    m.close(float(reg.model.loss_fit), np.mean(loss_now), 'torch/loss', '', rtol=1e-3, atol=1e-5)
    m.seen(cls, kind, bs, ne, T, frac)


class _Conv:
    def __init__(self, reg, cls):
        self.r, self.c = reg, cls

    weights_size = property(lambda s: s.r.weights_size)

    def set_weights(self, w):
        # a tensor sharing the memory of the caller's array
        self.r.set_weights(torch.from_numpy(w) if self.c == 'torch' else w)

    def get_weights(self):
        return self.r.get_weights()


def early_stop(m, rng):
    """training stops after `patience` epochs without an improvement larger than epsilon"""
    losses = []

    def loss(y_hat, y):
        L = F.mse_loss(y_hat, y)
        losses.append((float(L), len(y)))
        return L
    lr = float(rng.choice([.02, .3, 1.2]))
    reg = Regressor(NumpyTorchApproximator, input_shape=(2,), output_shape=(1,), network=Net, n_features=3, loss=loss,
                    optimizer={'class': torch.optim.SGD, 'params': dict(lr=lr)})
    T = rng.randint(6, 20)
    X, Y = rng.randn(T, 2).astype(np.float32), rng.randn(T, 1).astype(np.float32)
    eps, pat = float(rng.choice([1e-1, 1e-2, 1e-3])), int(rng.randint(1, 4))
    cap = int(rng.choice([5, 50, 500]))
    split = float(rng.choice([1., .6]))
    kw = dict(epsilon=eps, n_epochs=cap)
    if pat > 1:
        kw['patience'] = pat
    if split < 1:
        kw['validation_split'] = split
    reg.fit(X, Y, **kw)
    vals = [v for v, _ in losses]
    ntr = int(np.ceil(T * split))
    if split < 1 and ntr < T:
        m.ok(all(n == (ntr if i % 2 == 0 else T - ntr) for i, (_, n) in enumerate(losses)), 'early/split-sizes')
        vals = vals[1::2]
    best, cnt, ep = np.inf, 0, 0
    near = False
    while cnt < pat and ep < cap:
        if ep >= len(vals):
            break
        near |= abs(best - vals[ep] - eps) < 1e-7
        if best - vals[ep] > eps:
            best, cnt = vals[ep], 0
        else:
            cnt += 1
        ep += 1
    if not near:
        m.ok(len(vals) == ep and (cnt == pat or ep == cap), 'early/number-of-epochs', f'{len(vals)} epochs, expected {ep} ({cnt}/{pat})')
        m.event('early_stops', int(cnt == pat))
    m.seen('early', len(vals))


def modes(m, rng):
    """dropout networks train in training mode and predict in evaluation mode; reinitialization happens before a fit"""
    reg = Regressor(NumpyTorchApproximator, input_shape=(2,), output_shape=(1,), network=Net, n_features=3,
                    loss=lambda a, b, reduction='mean': F.mse_loss(a, b, reduction=reduction).sum(-1),
                    optimizer={'class': torch.optim.SGD, 'params': dict(lr=.1)}, dropout=True, reinitialize=True)
    net = reg.model.network
    X, Y = rng.randn(5, 2).astype(np.float32), rng.randn(5, 1).astype(np.float32)
    for k in range(3):
        net.log.clear()
        reg.predict(X)
        m.ok(not net.log[-1][1], 'modes/predicts-in-training-mode')
        net.log.clear()
        kw = dict(n_epochs=int(rng.randint(1, 4))) if rng.rand() < .5 else {}
        if rng.rand() < .5:
            kw.update(epsilon=1e-3, n_epochs=4)
        if rng.rand() < .4:
            kw['weights'] = rng.uniform(.5, 1, 5).astype(np.float32)
        reg.fit(X, Y, **kw)
        m.ok(all(t for _, t in net.log), 'modes/trains-in-evaluation-mode')
        m.eq(net.inits, k + 1, 'modes/reinitialized', '')
        net.log.clear()
        reg.predict(X)
        m.ok(not net.log[-1][1], 'modes/predicts-in-training-mode')


def torch_ensemble(m, rng):
    k, o, N = rng.randint(2, 5), rng.randint(2, 4), rng.randint(1, 6)
    how = str(rng.choice(['mean', 'sum', 'min', 'max']))
    cls = TorchApproximator if rng.rand() < .7 else NumpyTorchApproximator
    q = rng.rand() < .5
    reg = Regressor(cls, input_shape=(3,), output_shape=(o,), network=Net, n_features=3, n_models=k, prediction=how,
                    loss=F.mse_loss, optimizer={'class': torch.optim.SGD, 'params': dict(lr=.1)}, **(dict(n_actions=o) if q else {}))
    x = torch.randn(N, 3)
    P = []
    for i in range(k):
        w = npy(reg[i].get_weights())
        P.append(twin(w, 3, 3, o)[0](x).detach().numpy())
    P = np.stack(P)
    m.ok(len({p.tobytes() for p in P}) == k, 'ensemble/members-identical')
    agg = dict(mean=np.mean, sum=np.sum, min=np.min, max=np.max)
    tol = dict(rtol=1e-5, atol=1e-5)
    m.close(npy(reg.predict(x)), agg[how](P, 0), 'ensemble/default-aggregate', how, **tol)
    for hh in agg:
        m.close(npy(reg.predict(x, prediction=hh)), agg[hh](P, 0), 'ensemble/aggregate', hh, **tol)
        if not q:
            r, v = reg.predict(x, prediction=hh, compute_variance=True)
            m.close(npy(r), agg[hh](P, 0), 'ensemble/aggregate-with-variance', hh, **tol)
            v = npy(v)
            m.ok(np.allclose(v, P.var(0), rtol=1e-3, atol=1e-5) or np.allclose(v, P.var(0, ddof=1), rtol=1e-3, atol=1e-5), 'ensemble/variance')
    for i in range(k):
        m.close(npy(reg.predict(x, idx=i)), P[i], 'ensemble/member', '', **tol)
    sel = sorted(int(v) for v in rng.choice(k, rng.randint(1, k + 1), replace=False))
    m.close(npy(reg.predict(x, idx=sel)), agg[how](P[sel], 0), 'ensemble/subset', '', **tol)
    if q:
        a = torch.randint(o, (N, 1))
        m.close(npy(reg.predict(x, a)), agg[how](P, 0)[np.arange(N), a[:, 0].numpy()], 'ensemble/action', '', **tol)
    else:
        W0 = [npy(reg[i].get_weights()).copy() for i in range(k)]
        j = int(rng.randint(k))
        reg.fit(x if cls is TorchApproximator else x.numpy(), torch.randn(N, o) if cls is TorchApproximator else rng.randn(N, o).astype(np.float32), idx=j)
        for i in range(k):
            m.ok(np.array_equal(npy(reg[i].get_weights()), W0[i]) == (i != j), 'ensemble/fit-addressed-member')
    m.event('ensembles')


def linear_network(m, rng):
    d, o = rng.randint(1, 5), rng.randint(1, 4)
    bias = bool(rng.randint(2))
    reg = Regressor(TorchApproximator, input_shape=(d,), output_shape=(o,), network=LinearNetwork, **(dict(use_bias=True) if bias else {}))
    n = d * o + (o if bias else 0)
    m.eq(reg.weights_size, n, 'linear-network/size', '')
    w = torch.randn(n)
    reg.set_weights(w)
    x = torch.randn(4, d)
    want = x @ w[:d * o].reshape(o, d).T + (w[d * o:] if bias else 0)
    m.close(npy(reg.predict(x)), npy(want), 'linear-network/predict', '', rtol=1e-5, atol=1e-5)
    m.event('weight_roundtrips')


class Mixed(nn.Module):
    """a network of an image and a vector, with a head that is not always used"""
    def __init__(self, input_shape, output_shape, spare=False, **kw):
        super().__init__()
        (a, b), (c,) = input_shape
        self.a = nn.Linear(a * b, output_shape[0])
        self.unused = nn.Linear(2, 3) if spare else None
        self.b = nn.Linear(c, output_shape[0])

    def forward(self, img, x):
        return self.a(img.float().flatten(1)) + self.b(x.float())


def mixed_inputs(m, rng):
    a, b, c, o, N = (int(v) for v in rng.randint(2, 5, 5))
    cls = TorchApproximator if rng.rand() < .5 else NumpyTorchApproximator
    reg = Regressor(cls, input_shape=((a, b), (c,)), output_shape=(o,), network=Mixed, spare=bool(rng.randint(2)), loss=F.mse_loss,
                    optimizer={'class': torch.optim.SGD, 'params': dict(lr=.1)})
    net = reg.model.network
    img, x = rng.randn(N, a, b).astype(np.float32), rng.randn(N, c).astype(np.float32)
    conv = (lambda z: torch.as_tensor(z)) if cls is TorchApproximator else (lambda z: z)
    want = npy(net(torch.as_tensor(img), torch.as_tensor(x)))
    tol = dict(rtol=1e-5, atol=1e-5)
    m.close(npy(reg.predict(conv(img), conv(x))), want, 'mixed-inputs/batch', '', **tol)
    for i in range(N):
        m.close(npy(reg.predict(conv(img[i]), conv(x[i]))), want[i], 'mixed-inputs/single', '', **tol)
        m.event('single_inputs')
    w = npy(reg.get_weights()).copy()
    m.eq(len(w), reg.weights_size, 'mixed-inputs/size')
    from mushroom_rl.utils.torch import TorchUtils
    ps = list(net.parameters())
    TorchUtils.zero_grad(ps)
    (net(torch.as_tensor(img), torch.as_tensor(x)) ** 2).sum().backward()
    g = npy(TorchUtils.get_gradient(ps))
    m.close(g, np.concatenate([npy(p.grad).ravel() if p.grad is not None else np.zeros(p.numel(), np.float32) for p in ps]),
            'mixed-inputs/gradient-vector', '', rtol=0, atol=0)
    kept = g.copy()
    w2 = rng.randn(len(w)).astype(np.float32)
    reg.set_weights(torch.as_tensor(w2) if cls is TorchApproximator else w2)
    m.eq(npy(reg.get_weights()), w2, 'mixed-inputs/weights')
    k = 0
    for p in ps:
        m.eq(npy(p).ravel(), w2[k:k + p.numel()], 'mixed-inputs/weights')
        k += p.numel()
    TorchUtils.zero_grad(ps)
    m.ok(all(p.grad is None or not p.grad.any() for p in ps), 'mixed-inputs/zero-grad')
    m.eq(g, kept, 'mixed-inputs/gradient-vector', 'changed afterwards')
    m.event('weight_roundtrips')


def sk(m, rng, action):
    d, na = rng.randint(1, 4), rng.randint(2, 4)
    N = 40
    X = rng.randn(N, d)
    x = rng.randn(6, d)
    tree = rng.rand() < .5
    mk = (lambda: ExtraTreesRegressor(n_estimators=5, random_state=3)) if tree else LinearRegression
    kw = dict(n_estimators=5, random_state=3) if tree else {}
    cls = ExtraTreesRegressor if tree else LinearRegression
    if action:
        A = rng.randint(na, size=(N, 1))
        A[:na, 0] = np.arange(na)
        Y = rng.randn(N)
        reg = Regressor(cls, input_shape=(d,), output_shape=(1,), n_actions=na, **kw)
        reg.fit(X, A, Y)
        want = np.stack([mk().fit(X[A[:, 0] == a], Y[A[:, 0] == a]).predict(x) for a in range(na)], 1)
        m.close(reg.predict(x), want, 'sklearn/all-actions', '')
        a = rng.randint(na, size=(6, 1))
        m.close(reg.predict(x, a), want[np.arange(6), a[:, 0]], 'sklearn/action', '')
        m.close(reg.predict(x[0]), want[0], 'sklearn/single', '')
        m.event('action_regressors')
    else:
        Y = rng.randn(N)
        reg = Regressor(cls, input_shape=(d,), output_shape=(1,), **kw)
        reg.fit(X, Y)
        m.close(reg.predict(x), mk().fit(X, Y).predict(x), 'sklearn/predict', '')
    m.raises(NotImplementedError, reg.get_weights, 'sklearn/weights-available')
    m.event('sklearn')


def cases(tier, rng):
    q = 8 if tier == 'quick' else 80
    for _ in range(10 * q):
        yield 'table', dict(models=0)
        yield 'table', dict(models=int(rng.randint(1, 5)))
        for kind in ('generic', 'q', 'action'):
            for phi in (False, True):
                yield 'linear', dict(kind=kind, phi=phi)
        yield 'linear_ensemble', {}
        yield 'cmac', dict(out=int(rng.randint(1, 4)))
        for cls, kind in itertools.product(('torch', 'numpy'), ('generic', 'q')):
            yield 'torch_reg', dict(cls=cls, kind=kind, two=kind == 'generic' and bool(rng.randint(2)))
        yield 'early_stop', {}
        yield 'torch_ensemble', {}
        yield 'sk', dict(action=True)
    for _ in range(4 * q):
        yield 'modes', {}
        yield 'mixed_inputs', {}
        yield 'linear_network', {}
        yield 'sk', dict(action=False)
        yield 'cmac', dict(out=1)
        yield 'cmac', dict(out=3)
