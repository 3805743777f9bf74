"""C30: array backends and spaces."""
import itertools
import math
import os
import tempfile
from collections import deque

import numpy as np
import torch

from mushroom_rl.core import ArrayBackend
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mushroom_rl.utils.torch import TorchUtils

PROPERTY = 'C30'
RULE = ('every operation of the numpy and tensor backends on random arrays (one to four axes, empty axes and axes of size one, float, '
        'integer and boolean content, negative axes, non-contiguous views) compared with a plain-Python evaluation over nested lists and '
        'between backends; conversions between every pair of backends compared in value, shape and type; packing of padded sequences '
        'compared with a loop over environments; spaces built from scalars, arrays and tensors, saved and reloaded; torch parameter '
        'helpers compared with loops over the parameters')
NEED = dict(elementwise=800, creation=800, reductions=200, selections=300, shapes=600, concatenations=300, packings=300, flattenings=200,
            conversions=800, list_conversions=200, copies=200, randints=200, boxes=150, discretes=60, space_reloads=60, torch_vectors=150,
            optimizer_relinks=40, dispatch=200)

NP, TH, LS = (ArrayBackend.get_array_backend(b) for b in ('numpy', 'torch', 'list'))
BACKENDS = [('numpy', NP), ('torch', TH)]


def mk(x, name):
    return torch.tensor(np.ascontiguousarray(x)) if name == 'torch' else np.array(x)


def nump(x):
    return x.detach().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)


def typed(m, x, name, key):
    m.ok(isinstance(x, torch.Tensor if name == 'torch' else np.ndarray), key + '-type', f'{name} backend returned {type(x)}')


def rshape(rng, lo=1, hi=4, zero=True):
    n = rng.randint(lo, hi + 1)
    s = [int(v) for v in rng.randint(1, 5, n)]
    if zero and rng.rand() < .08:
        s[rng.randint(n)] = 0
    return tuple(s)


def content(rng, shape, dt=None):
    dt = dt or str(rng.choice(['f64', 'f32', 'i64', 'bool']))
    if dt == 'i64':
        return rng.randint(-9, 10, shape)
    if dt == 'bool':
        return rng.rand(*shape) < .5
    x = np.round(rng.randn(*shape) * 4, 3)
    return x.astype(np.float32) if dt == 'f32' else x


def each(shape):
    return itertools.product(*[range(s) for s in shape])


def elementwise(m, rng):
    shape = rshape(rng)
    x = content(rng, shape, str(rng.choice(['f64', 'f32', 'i64'])))
    lo, hi = sorted(float(v) for v in np.round(rng.randn(2) * 3, 2))
    if x.dtype.kind == 'i':
        lo, hi = int(math.floor(lo)), int(math.floor(hi))
    want = dict(abs={}, clip={}, sqrt={})
    for i in each(shape):
        v = x[i].item()
        want['abs'][i] = -v if v < 0 else v
        want['clip'][i] = lo if v < lo else hi if v > hi else v
        want['sqrt'][i] = math.sqrt(abs(v))
    for name, B in BACKENDS:
        a = mk(x, name)
        if rng.rand() < .4 and len(shape) > 1:      # a view with other strides
            a = mk(np.ascontiguousarray(np.swapaxes(x, 0, 1)), name).swapaxes(0, 1)
        got = dict(abs=B.abs(a), clip=B.clip(a, lo, hi), sqrt=B.sqrt(mk(np.abs(x), name)))
        m.eq(nump(a), x, 'input-altered', f'{name}: an elementwise operation changed its argument')
        for op, g in got.items():
            typed(m, g, name, op)
            m.eq(tuple(g.shape), shape, op + '-shape', name)
            g = nump(g)
            for i in each(shape):
                m.close(float(g[i]), float(want[op][i]), op, f'{name} {op} at {i} of {shape}', rtol=1e-6, atol=1e-7)
            m.event('elementwise')
        m.seen(name, shape, str(x.dtype))


def reductions(m, rng):
    shape = rshape(rng, zero=False)
    x = content(rng, shape, str(rng.choice(['f64', 'f32'])))
    v = sorted(x.reshape(-1).tolist())
    n = len(v)
    want = v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2
    for name, B in BACKENDS + [('list', LS)]:
        a = x.tolist() if name == 'list' else mk(x, name)
        m.close(float(B.median(a)), want, 'median', f'{name} {shape}', rtol=1e-6, atol=1e-6)
        m.event('reductions')
        m.seen(name, shape)
        if name != 'list':
            m.eq(int(B.size(a)), n, 'size', f'{name} {shape}')
        m.eq(tuple(B.shape(a)), shape, 'shape', f'{name} {shape}')


def creation(m, rng):
    shape = rshape(rng)
    for name, B in BACKENDS + [('list', LS)]:
        tname = 'torch' if name == 'torch' else 'numpy'
        dts = [None, int, bool, float] if name != 'torch' else [None, torch.int64, torch.bool, torch.float64]
        dt = dts[rng.randint(4)]
        kw = {} if dt is None else dict(dtype=dt)
        ref = mk(content(rng, shape), tname)
        for op, val, f in (('zeros', 0, lambda: B.zeros(*shape, **kw)), ('ones', 1, lambda: B.ones(*shape, **kw)),
                           ('zeros_like', 0, lambda: B.zeros_like(ref, **kw)), ('ones_like', 1, lambda: B.ones_like(ref, **kw))):
            g = f()
            typed(m, g, tname, op)
            m.eq(tuple(g.shape), shape, op + '-shape', name)
            m.eq(nump(g).astype(float), np.full(shape, float(val)), op, f'{name} {shape}')
            if dt is not None:
                m.ok(g.dtype == (torch.empty(0, dtype=dt).dtype if name == 'torch' else np.dtype(dt)), op + '-dtype', f'{g.dtype} for {dt}')
            else:
                m.ok(nump(g).dtype.kind == 'f', op + '-dtype', f'default type {g.dtype}')
            g[...] = val + 1
            m.eq(nump(f()).astype(float), np.full(shape, float(val)), op + '-shared', f'{name} a second array shares memory with the first')
            m.event('creation')
        v = float(np.round(rng.randn(), 3))
        g = B.full(shape, v)
        m.close(nump(g), np.full(shape, v), 'full', name, rtol=1e-6)
        m.eq(tuple(g.shape), shape, 'full-shape', name)
        g = B.empty(shape)
        typed(m, g, tname, 'empty')
        m.eq(tuple(g.shape), shape, 'empty-shape', name)
        m.ok(math.isnan(float(B.none())), 'none', f'{name}: the missing value is {B.none()}')
        g = nump(B.full(shape, B.none()))
        m.ok(bool(np.isnan(g).all()), 'none-full', name)
        m.seen(name, shape, str(dt))
        if name != 'torch':
            m.raises(ValueError, lambda: B.zeros(2, device='cpu'), 'device-' + name)
        a, b, s = int(rng.randint(-5, 6)), int(rng.randint(-5, 20)), int(rng.randint(1, 4))
        if name != 'list' and b >= a:
            got = nump(B.arange(a, b, s))
            m.eq(got.tolist(), list(range(a, b, s)), 'arange', f'{name} {a} {b} {s}')
            m.eq(nump(B.arange(a, b)).tolist(), list(range(a, b)), 'arange', f'{name} {a} {b}')


def selections(m, rng):
    shape = rshape(rng)
    c = content(rng, shape, 'bool')
    x, y = content(rng, shape, 'f64'), content(rng, shape, 'f64')
    want = [i for i in each(shape) if c[i]]
    for name, B in BACKENDS:
        idx = B.where(mk(c, name))
        m.eq(len(idx), len(shape), 'where-axes', name)
        m.eq([tuple(int(a[k]) for a in idx) for k in range(len(want))], want, 'where-indices', f'{name} {shape}')
        m.eq(int(len(idx[0])), len(want), 'where-count', name)
        g = B.where(mk(c, name), mk(x, name), mk(y, name))
        m.ok(g is not None, 'where-select', f'{name}: where(cond, x, y) returned nothing')
        g = nump(g)
        m.eq(g, np.array([x[i] if c[i] else y[i] for i in each(shape)]).reshape(shape), 'where-select', f'{name} {shape}')
        m.raises(AssertionError, lambda: B.where(mk(c, name), mk(x, name)), 'where-one-argument')
        m.event('selections')
        m.seen(name, shape, len(want))


def shapes(m, rng):
    shape = rshape(rng)
    x = content(rng, shape)
    flat = x.reshape(-1).tolist()
    for name, B in BACKENDS:
        a = mk(x, name)
        g = B.squeeze(a)
        m.eq(tuple(g.shape), tuple(s for s in shape if s != 1), 'squeeze-shape', f'{name} {shape}')
        m.eq(nump(g).reshape(-1).tolist(), flat, 'squeeze', name)
        ones = [i for i, s in enumerate(shape) if s == 1]
        if ones:
            d = ones[rng.randint(len(ones))]
            dd = d - len(shape) if rng.rand() < .4 else d
            g = B.squeeze(a, dd)
            m.eq(tuple(g.shape), shape[:d] + shape[d + 1:], 'squeeze-shape', f'{name} {shape} {dd}')
            m.eq(nump(g).reshape(-1).tolist(), flat, 'squeeze', name)
        d = int(rng.randint(0, len(shape) + 1))
        dd = d - len(shape) - 1 if rng.rand() < .4 else d
        g = B.expand_dims(a, dd)
        m.eq(tuple(g.shape), shape[:d] + (1,) + shape[d:], 'expand-shape', f'{name} {shape} {dd}')
        m.eq(nump(g).reshape(-1).tolist(), flat, 'expand', name)
        g = B.atleast_2d(a)
        m.eq(tuple(g.shape), shape if len(shape) > 1 else (1,) + shape, 'atleast2d-shape', f'{name} {shape}')
        m.eq(nump(g).reshape(-1).tolist(), flat, 'atleast2d', name)
        m.eq(tuple(B.atleast_2d(mk(np.array(3.), name)).shape), (1, 1), 'atleast2d-scalar', name)
        m.event('shapes', 3)
        c = B.copy(a)
        m.eq(nump(c), x, 'copy', name)
        m.ok(c.dtype == a.dtype, 'copy-dtype', name)
        if c.reshape(-1).shape[0]:
            c[...] = 1
            a2 = mk(x, name)
            m.eq(nump(a), nump(a2), 'copy-shared', f'{name}: writing to the copy changed the original')
        m.event('copies')
        k = int(rng.randint(1, 5))
        parts = [content(rng, shape, 'f64') for _ in range(k)]
        g = B.from_list([mk(p, name) for p in parts])
        m.eq(nump(g), np.array([p.tolist() for p in parts]).reshape((k,) + shape), 'from-list', f'{name} {shape}')
        g = B.from_list([float(v) for v in flat])
        m.close(nump(g), np.array([float(v) for v in flat]), 'from-list', name, rtol=1e-6)
        ax = int(rng.randint(len(shape)))
        many = []
        for _ in range(k):
            s = list(shape)
            s[ax] = int(rng.randint(0, 4))
            many.append(content(rng, tuple(s), 'f64'))
        axx = ax - len(shape) if rng.rand() < .3 else ax
        g = B.concatenate([mk(p, name) for p in many], axx)
        want = {}
        off = 0
        for p in many:
            for i in each(p.shape):
                want[i[:ax] + (i[ax] + off,) + i[ax + 1:]] = p[i]
            off += p.shape[ax]
        m.eq(tuple(g.shape), shape[:ax] + (off,) + shape[ax + 1:], 'concatenate-shape', f'{name} {shape} axis {axx}')
        gn = nump(g)
        m.ok(all(gn[i] == v for i, v in want.items()), 'concatenate', f'{name} {shape} axis {axx}')
        if ax == 0:
            m.eq(nump(B.concatenate([mk(p, name) for p in many])), gn, 'concatenate-default', name)
        m.event('concatenations')
        m.seen(name, shape, ax, k)


def packing(m, rng):
    t, e = int(rng.randint(1, 8)), int(rng.randint(1, 6))
    tail = tuple(int(v) for v in rng.randint(1, 4, rng.randint(0, 3)))
    x = content(rng, (t, e) + tail)
    mask = rng.rand(t, e) < rng.choice([.3, .7, 1., 0.])
    if rng.rand() < .5:        # the padded layout: a prefix of valid entries per environment
        lens = rng.randint(0, t + 1, e)
        mask = np.arange(t)[:, None] < lens[None]
    want = [x[i, j] for j in range(e) for i in range(t) if mask[i, j]]
    allv = [x[i, j] for j in range(e) for i in range(t)]
    for name, B in BACKENDS + [('list', LS)]:
        tname = 'torch' if name == 'torch' else 'numpy'
        a, k = mk(x, tname), mk(mask, tname)
        if name == 'list':
            k = mask.tolist()
        g = B.pack_padded_sequence(a, k)
        typed(m, g, tname, 'pack')
        m.eq(tuple(g.shape), (len(want),) + tail, 'pack-shape', f'{name} {x.shape}')
        if want:
            m.eq(nump(g), np.array(want), 'pack', f'{name} {x.shape}: valid entries, environment by environment')
        m.event('packings')
        g = B.flatten(a)
        m.eq(tuple(g.shape), (t * e,) + tail, 'flatten-shape', f'{name} {x.shape}')
        m.eq(nump(g), np.array(allv), 'flatten', f'{name} {x.shape}')
        m.eq(nump(a), x, 'input-altered', f'{name}: packing changed its argument')
        m.event('flattenings')
        m.seen(name, x.shape, int(mask.sum()))


def conversions(m, rng):
    shape = rshape(rng)
    x = content(rng, shape)
    for src, dst in itertools.product(('numpy', 'torch'), repeat=2):
        a = mk(x, src)
        D = ArrayBackend.get_array_backend(dst)
        for how in range(4):
            if how == 0:
                g = D.convert(a)
            elif how == 1:
                g = ArrayBackend.convert(a, to=dst)
            elif how == 2:
                g = ArrayBackend.convert(a, to=dst, backend=ArrayBackend.get_array_backend(src))
            else:
                g = getattr(ArrayBackend.get_array_backend(src), 'to_' + dst)(a)
            typed(m, g, dst, 'convert')
            m.eq(nump(g), x, 'convert', f'{src} to {dst}')
            m.ok(nump(g).dtype == x.dtype, 'convert-dtype', f'{src} {x.dtype} to {dst} {g.dtype}')
            m.event('conversions')
        b = mk(content(rng, rshape(rng)), src)
        for many in ((a, b), (a, b, a), (b, a, a, b)):
            for g in (D.convert(*many), ArrayBackend.convert(*many, to=dst), ArrayBackend.convert(*many, to=dst, backend=ArrayBackend.get_array_backend(src))):
                m.ok(isinstance(g, (tuple, list)) and len(g) == len(many), 'convert-many', f'{src} to {dst}')
                for u, v in zip(g, many):
                    typed(m, u, dst, 'convert-many')
                    m.eq(nump(u), nump(v), 'convert-many', f'{src} to {dst}')
        if src == 'torch':
            p = torch.nn.Parameter(torch.tensor(np.asarray(x, dtype=float)))
            m.eq(nump(D.convert(p * 1.)), np.asarray(x, dtype=float), 'convert-graph', f'a tensor with gradient to {dst}')
        g = ArrayBackend.get_array_backend(src)
        if src != dst:
            m.ok(getattr(g, 'to_' + dst)(None) is None, 'convert-none', f'{src} to {dst}')
        m.seen(src, dst, shape, str(x.dtype))
    k = int(rng.randint(1, 6))
    shape = rshape(rng, zero=False)
    rows = [content(rng, shape, 'f64') for _ in range(k)]
    for seq in (list(rows), deque(rows), [r.tolist() for r in rows]):
        g = ArrayBackend.convert(seq, to='numpy')
        m.eq(nump(g), np.array([r.tolist() for r in rows]).reshape((k,) + shape), 'convert-list', f'{type(seq).__name__} to numpy')
        if not isinstance(seq, deque):
            g = ArrayBackend.convert(list(np.array(seq)), to='torch') if len(shape) else None
            typed(m, g, 'torch', 'convert-list')
            m.close(nump(g), np.array([r.tolist() for r in rows]).reshape((k,) + shape), 'convert-list', 'list to torch', rtol=1e-6)
        m.event('list_conversions')
    whole = [int(v) for v in rng.randint(-2 ** 40, 2 ** 40, k)]
    flags = [bool(v) for v in rng.rand(k) < .5]
    for seq, kind in ((whole, 'i'), (flags, 'b')):
        for dst in ('numpy', 'torch'):
            g = ArrayBackend.convert(seq, to=dst)
            typed(m, g, dst, 'convert-list')
            m.ok(nump(g).dtype.kind == kind and nump(g).tolist() == seq, 'convert-list-values', f'{seq} to {dst}: {g}')
    for name, B in BACKENDS:
        for v in (torch.tensor(2.5) if name == 'torch' else np.array(2.5), mk(content(rng, rshape(rng, zero=False), 'f64'), name)):
            w, keep = B.copy(v), np.array(nump(v))
            w += 1
            m.eq(nump(v), keep, 'copy-shares-memory', name)
            m.event('copies')
    for name, B in BACKENDS + [('list', LS)]:
        m.eq(B.get_backend_name(), name, 'name', name)
        m.ok(ArrayBackend.get_array_backend(name) is B, 'dispatch', name)
    for v, B in ((np.zeros(2), NP), (torch.zeros(2), TH), ([1, 2], LS), (deque([1]), LS)):
        m.ok(ArrayBackend.get_array_backend_from(v) is B, 'dispatch-value', str(type(v)))
        m.event('dispatch')
    m.raises(ValueError, lambda: ArrayBackend.get_array_backend('jax'), 'dispatch-unknown')
    m.raises(ValueError, lambda: ArrayBackend.get_array_backend_from({}), 'dispatch-unknown')


def randints(m, rng):
    lo = int(rng.randint(-5, 5))
    hi = lo + int(rng.randint(1, 6))
    size = (int(rng.randint(150, 300)), int(rng.randint(2, 4)))
    np.random.seed(rng.randint(2 ** 31))
    torch.manual_seed(int(rng.randint(2 ** 31)))
    for name, B in BACKENDS:
        g = B.randint(lo, hi, size)
        typed(m, g, name, 'randint')
        m.eq(tuple(g.shape), size, 'randint-shape', name)
        v = nump(g)
        m.ok(v.dtype.kind == 'i', 'randint-dtype', str(v.dtype))
        m.ok(v.min() >= lo and v.max() < hi, 'randint-range', f'{name}: [{v.min()}, {v.max()}] for [{lo}, {hi})')
        n = hi - lo
        cnt = np.array([(v == k).sum() for k in range(lo, hi)])
        exp = v.size / n
        m.ok(bool((np.abs(cnt - exp) < 7 * np.sqrt(exp) + 6).all()), 'randint-uniform', f'{name}: {cnt} for {exp} each')
        m.event('randints')
        m.seen(name, lo, hi)


def spaces(m, rng):
    shape = rshape(rng, hi=3, zero=False)
    kind = str(rng.choice(['scalar', 'array', 'array-shape', 'tensor', 'inf', 'mixed']))
    low = np.round(rng.randn(*shape) - 2, 2)
    high = np.round(low + rng.rand(*shape) * 3 + .1, 2)
    if kind == 'scalar':
        a, b = float(low.reshape(-1)[0]), float(high.reshape(-1)[0])
        box = Box(a, b, shape)
        low, high = np.full(shape, a), np.full(shape, b)
    elif kind == 'inf':
        low[rng.rand(*shape) < .5] = -np.inf
        high[rng.rand(*shape) < .5] = np.inf
        box = Box(low.copy(), high.copy())
    elif kind == 'tensor':
        box = Box(torch.tensor(low), torch.tensor(high))
    elif kind == 'mixed':
        dt = [int, np.float32, float][rng.randint(3)]
        box = Box(low.copy(), high.copy(), data_type=dt)
        m.ok(box.data_type is dt, 'box-data-type', f'{box.data_type} for {dt}')
    else:
        box = Box(low.copy(), high.copy(), *([shape] if kind == 'array-shape' else []))
    for again in range(2):
        m.eq(tuple(box.shape), shape, 'box-shape', kind)
        m.eq(nump(box.low), low, 'box-low', kind)
        m.eq(nump(box.high), high, 'box-high', kind)
        m.event('boxes')
        if again == 0:
            if kind != 'mixed':
                m.ok(box.data_type is float, 'box-data-type', str(box.data_type))
            dt = box.data_type
            with tempfile.TemporaryDirectory(prefix='c30-') as d:
                box.save(os.path.join(d, 'b.msh'))
                box = Box.load(os.path.join(d, 'b.msh'))
            m.ok(box.data_type is dt, 'box-data-type-reload', f'{box.data_type} for {dt}')
            m.event('space_reloads')
    m.raises(AssertionError, lambda: Box(np.zeros(2), np.ones(3)), 'box-mismatch')
    n = int(rng.randint(1, 20))
    sp = Discrete(n)
    for again in range(2):
        m.eq(int(sp.n), n, 'discrete-n', str(n))
        m.eq(tuple(int(v) for v in sp.size), (n,), 'discrete-size', str(n))
        m.eq(tuple(sp.shape), (1,), 'discrete-shape', str(n))
        m.eq([int(v) for v in sp.values], list(range(n)), 'discrete-values', str(n))
        m.ok(sp.data_type is int, 'discrete-type', str(sp.data_type))
        m.event('discretes')
        if again == 0:
            with tempfile.TemporaryDirectory(prefix='c30-') as d:
                sp.save(os.path.join(d, 'd.msh'))
                sp = Discrete.load(os.path.join(d, 'd.msh'))
    m.seen(kind, shape, n)


def torch_vectors(m, rng):
    ps = []
    for _ in range(rng.randint(1, 5)):
        ps.append(torch.nn.Parameter(torch.tensor(np.round(rng.randn(*rshape(rng, lo=0, hi=3, zero=False)), 3),
                                                  dtype=[torch.float32, torch.float32, torch.float64][rng.randint(3)])))
    dts = [p.dtype for p in ps]
    n = sum(p.numel() for p in ps)
    if len(set(dts)) == 1:
        w = nump(TorchUtils.get_weights(ps))
        m.close(w, np.concatenate([nump(p).reshape(-1) for p in ps]), 'get-weights', str([tuple(p.shape) for p in ps]))
    w = rng.randn(n)
    src = w.copy() if rng.rand() < .5 else torch.tensor(w)
    ids = [id(p) for p in ps]
    TorchUtils.set_weights(ps, src)
    m.ok([id(p) for p in ps] == ids, 'set-weights-identity', 'the parameters were replaced')
    m.close(np.concatenate([nump(p).reshape(-1).astype(float) for p in ps]), w, 'set-weights', '', rtol=1e-6, atol=1e-7)
    m.eq([p.dtype for p in ps], dts, 'set-weights-dtype', '')
    if isinstance(src, np.ndarray):
        src += 1.
    else:
        src.add_(1.)
    m.close(np.concatenate([nump(p).reshape(-1).astype(float) for p in ps]), w, 'set-weights-shared', '', rtol=1e-6, atol=1e-7)
    withg = [rng.rand() < .7 for _ in ps]
    want = []
    for p, g in zip(ps, withg):
        p.grad = torch.tensor(rng.randn(*p.shape), dtype=p.dtype) if g else None
        want.append(nump(p.grad).reshape(-1) if g else np.zeros(p.numel()))
    if len(set(dts)) == 1:
        m.close(nump(TorchUtils.get_gradient(ps)), np.concatenate(want), 'get-gradient', '', rtol=1e-6)
    TorchUtils.zero_grad(ps)
    m.ok(all(p.grad is None or not p.grad.abs().sum() for p in ps), 'zero-grad', 'a gradient is left')
    m.event('torch_vectors')
    x = content(rng, rshape(rng))
    f, i = TorchUtils.to_float_tensor(x), TorchUtils.to_int_tensor(x)
    m.ok(f.dtype == torch.float32 and i.dtype == torch.int32, 'tensor-types', f'{f.dtype} {i.dtype}')
    m.close(nump(f), x.astype(float), 'float-tensor', '', rtol=1e-6)
    m.eq(nump(i), np.trunc(x.astype(float)).astype(int), 'int-tensor', '')
    # optimizer state follows the parameters it is handed over to
    a = [torch.nn.Parameter(torch.tensor(rng.randn(3), dtype=torch.float32)) for _ in range(3)]
    b = [torch.nn.Parameter(p.data.clone()) for p in a]
    twin = [torch.nn.Parameter(p.data.clone()) for p in a]
    oa, ot = torch.optim.Adam(a, lr=.1), torch.optim.Adam(twin, lr=.1)
    warm = int(rng.randint(0, 4))
    for k in range(warm + 3):
        if k == warm:
            for p, q in zip(b, a):
                p.data = q.data.clone()
            TorchUtils.update_optimizer_parameters(oa, b)
            m.ok(all(p is q for p, q in zip(oa.param_groups[0]['params'], b)), 'relink', 'the optimizer does not hold the new parameters')
        cur = a if k < warm else b
        for p, q in zip(cur, twin):
            g = torch.tensor(rng.randn(3), dtype=torch.float32)
            p.grad, q.grad = g.clone(), g.clone()
        oa.step()
        ot.step()
        for p, q in zip(cur, twin):
            m.close(nump(p), nump(q), 'relink-step', f'step {k}, handed over at {warm}', rtol=1e-6, atol=1e-7)
    m.event('optimizer_relinks')
    m.seen('torch', n, warm)


def cases(tier, rng):
    n = 1 if tier == 'quick' else 8
    for _ in range(150 * n):
        for f in ('elementwise', 'reductions', 'creation', 'selections', 'shapes', 'packing', 'conversions', 'randints', 'spaces', 'torch_vectors'):
            yield f, {}
