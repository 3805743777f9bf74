"""C35: minibatches, angles, frames and numerical derivatives."""
import math
from collections import deque

import numpy as np
import torch

from mushroom_rl.distributions import GaussianCholeskyDistribution, GaussianDiagonalDistribution
from mushroom_rl.policy import DiagonalGaussianPolicy, GaussianPolicy
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.utils import LazyFrames, preprocess_frame
from mushroom_rl.utils.angles import (euler_to_mat, euler_to_quat, mat_to_euler, normalize_angle, normalize_angle_positive, quat_to_euler,
                                      shortest_angular_distance)
from mushroom_rl.utils.minibatches import minibatch_generator, minibatch_number
from mushroom_rl.utils.numerical_gradient import numerical_diff_dist, numerical_diff_function, numerical_diff_policy

PROPERTY = 'C35'
RULE = ('minibatch passes over one to five arrays and tensors carrying unique ids, of any length and batch size (including larger than the '
        'data, one, dividing and not dividing it); the blocks are logged and checked for exactly-once coverage, size, alignment, '
        'randomness of the order and unaltered inputs; angles over many turns, next to multiples of pi and huge compared with the '
        'complex-number representation; rotations compared with explicit products of axis rotations; stacked frames against the '
        'frames they were built from; numerical derivatives against exact ones, with the policy and distribution left as found')
NEED = dict(passes=600, blocks=3000, short_blocks=150, oversized=60, orders=300, angles=8000, near_pi=1500, distances=4000, rotations=600,
            rotation_batches=100, frames=100, grey_frames=60, derivatives=150)


# ------------------------------------------------------------------ minibatches
def minibatch(m, rng):
    n = int(rng.choice([1, 2, 3, 5, 8, 16, 31, 64, 100]))
    bs = int(rng.choice([1, 2, 3, 7, 8, 16, n, n + 1, 3 * n]))
    if rng.rand() < .15:        # large batches with a short rest
        bs = int(rng.randint(65, 400))
        n = bs * int(rng.randint(1, 6)) + int(rng.choice([-1, 0, 1, 2]))
    k = int(rng.randint(1, 6))
    want_blocks = n // bs + (1 if n % bs else 0)
    got = minibatch_number(n, bs)
    m.ok(isinstance(got, int), 'number-type', str(type(got)))
    m.eq(got, want_blocks, 'number', f'{n} samples in batches of {bs}')
    data, before = [], []
    for j in range(k):
        tail = tuple(int(v) for v in rng.randint(1, 4, rng.randint(0, 3)))
        x = np.arange(n).reshape((n,) + (1,) * len(tail)) + np.zeros((n,) + tail) + 1000. * j
        kind = rng.randint(4)
        if kind == 1:
            x = torch.tensor(x)
        elif kind == 2:
            x = x.astype(int)
        data.append(x)
        before.append(np.array(x))
    np.random.seed(int(rng.randint(2 ** 31)))
    orders = []
    for _ in range(2):
        ids, sizes = [], []
        for batch in minibatch_generator(bs, *data):
            m.eq(len(batch), k, 'block-arrays', f'{k} arrays given')
            size = len(batch[0])
            sizes.append(size)
            own = None
            for j, b in enumerate(batch):
                m.ok(type(b) is type(data[j]) and b.dtype == data[j].dtype, 'block-type', f'{type(b)} for {type(data[j])}')
                m.eq(tuple(b.shape[1:]), tuple(data[j].shape[1:]), 'block-shape', f'array {j}')
                rows = np.array(b).reshape(len(b), -1) - 1000. * j
                m.ok(bool((rows == rows[:, :1]).all()), 'block-rows', 'a sample was mixed with another')
                rows = rows[:, 0].astype(int).tolist()
                own = rows if own is None else own
                m.eq(rows, own, 'alignment', f'array {j} is not aligned with array 0')
                if rng.rand() < .3:
                    b[...] = 7      # the consumer owns the block
            ids += own
            m.event('blocks')
        m.eq(sorted(ids), list(range(n)), 'exactly-once', f'{n} samples in batches of {bs}: {len(ids)} delivered')
        m.eq(sizes, [bs] * (n // bs) + ([n % bs] if n % bs else []), 'block-sizes', f'{n} samples in batches of {bs}')
        m.event('short_blocks', int(n % bs != 0))
        m.event('oversized', int(bs > n))
        for j in range(k):
            m.eq(np.array(data[j]), before[j], 'input-altered', f'array {j} changed during the pass')
        orders.append(ids)
        m.event('passes')
    if n >= 31:
        m.ok(orders[0] != orders[1], 'order-fixed', 'two passes visited the samples in the same order')
        m.ok(orders[0] != list(range(n)), 'order-unshuffled', 'the samples were not shuffled')
        m.event('orders', 2)
    m.seen(n, bs, k)


# ------------------------------------------------------------------ angles
def angles(m, rng):
    for _ in range(100):
        kind = rng.randint(5)
        if kind == 0:
            a = rng.uniform(-8, 8)
        elif kind == 1:
            a = rng.uniform(-500, 500)
        elif kind == 2:
            a = float(rng.randint(-9, 10)) * np.pi + rng.randn() * 10. ** -rng.randint(1, 15)
            m.event('near_pi')
        elif kind == 3:
            a = float(rng.randint(-6, 7)) * np.pi / 2
            m.event('near_pi')
        else:
            a = int(rng.randint(-20, 20))
        z = complex(math.cos(a), math.sin(a))
        e = 1e-9 + 1e-15 * abs(a)
        p, q = normalize_angle_positive(a), normalize_angle(a)
        m.ok(0 <= p < 2 * np.pi + 1e-12, 'positive-range', f'{a} mapped to {p}')
        m.ok(-np.pi - 1e-12 <= q <= np.pi + 1e-12, 'range', f'{a} mapped to {q}')
        m.ok(abs(complex(math.cos(p), math.sin(p)) - z) < e, 'positive-equivalent', f'{a} mapped to {p}')
        m.ok(abs(complex(math.cos(q), math.sin(q)) - z) < e, 'equivalent', f'{a} mapped to {q}')
        if abs(a) < np.pi - 1e-9:
            m.ok(abs(q - a) < 1e-9, 'identity-inside', f'{a} mapped to {q}')
        if 1e-9 < a < 2 * np.pi - 1e-9:
            m.ok(abs(p - a) < 1e-9, 'positive-identity-inside', f'{a} mapped to {p}')
        m.ok(abs(normalize_angle(q) - q) < 1e-9 or abs(abs(q) - np.pi) < 1e-9, 'idempotent', f'{a}')
        m.event('angles', 2)
        b = rng.uniform(-30, 30) if rng.rand() < .7 else a + float(rng.randint(-3, 4)) * np.pi + rng.randn() * 1e-3
        d = shortest_angular_distance(a, b)
        w = complex(math.cos(b), math.sin(b))
        m.ok(abs(z * complex(math.cos(d), math.sin(d)) - w) < 1e-8 + 1e-14 * abs(a), 'distance-reaches', f'{a} + {d} is not {b}')
        m.ok(abs(d) <= np.pi + 1e-9, 'distance-shortest', f'from {a} to {b}: {d}')
        m.ok(abs(abs(d) - math.acos(max(-1., min(1., (w / z).real)))) < 1e-6, 'distance-value', f'from {a} to {b}: {d}')
        back = shortest_angular_distance(b, a)
        m.ok(abs(back + d) < 1e-8 or abs(abs(d) - np.pi) < 1e-8, 'distance-antisymmetric', f'{a}, {b}: {d}, {back}')
        m.event('distances')
        m.seen(kind, round(float(a), 1))


def axis_rotation(i, t):
    c, s = math.cos(t), math.sin(t)
    j, k = (i + 1) % 3, (i + 2) % 3
    r = np.eye(3)
    r[j, j], r[j, k], r[k, j], r[k, k] = c, -s, s, c
    return r


def quat_matrix(q):
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def rotations(m, rng):
    def matrix(e):
        return axis_rotation(2, e[2]) @ axis_rotation(1, e[1]) @ axis_rotation(0, e[0])
    n = int(rng.randint(1, 6))
    E = np.stack([rng.uniform(-np.pi, np.pi, n), rng.uniform(-1.5, 1.5, n), rng.uniform(-np.pi, np.pi, n)])
    if rng.rand() < .3:
        E[rng.randint(3)] = 0.
    E0 = E.copy()
    for i in range(n):
        e = E[:, i].copy()
        want = matrix(e)
        m.close(euler_to_mat(e), want, 'euler-to-mat', f'{e}', atol=1e-9)
        q = euler_to_quat(e)
        m.close(np.linalg.norm(q), 1., 'quat-norm', f'{e}', atol=1e-9)
        m.close(quat_matrix(q), want, 'euler-to-quat', f'{e}', atol=1e-9)
        m.close(matrix(quat_to_euler(q)), want, 'quat-to-euler', f'{e}', atol=1e-8)
        m.close(matrix(quat_to_euler(-q)), want, 'quat-to-euler', f'{e} (opposite quaternion)', atol=1e-8)
        m.close(matrix(mat_to_euler(want)), want, 'mat-to-euler', f'{e}', atol=1e-8)
        m.close(quat_to_euler(q), e, 'euler-roundtrip', f'{e}', atol=1e-7)
        m.event('rotations')
    Q = euler_to_quat(E)
    m.eq(tuple(Q.shape), (4, n), 'quat-batch-shape', '')
    for i in range(n):
        m.close(Q[:, i], euler_to_quat(E[:, i].copy()), 'quat-batch', f'column {i}', atol=1e-9)
    back = quat_to_euler(Q)
    m.close(back, E, 'euler-batch', '', atol=1e-7)
    m.close(euler_to_mat(E.T), np.array([matrix(E[:, i]) for i in range(n)]), 'mat-batch', '', atol=1e-9)
    m.close(mat_to_euler(euler_to_mat(E.T)), E.T, 'mat-batch-roundtrip', '', atol=1e-7)
    m.eq(E, E0, 'input-altered', 'a conversion changed its argument')
    m.event('rotation_batches')
    m.seen('rotation', n)


# ------------------------------------------------------------------ frames
def frames(m, rng):
    h = int(rng.randint(1, 6))
    shape = (int(rng.randint(2, 7)), int(rng.randint(2, 7)))
    fs = [rng.randint(0, 256, shape).astype(np.uint8) for _ in range(h)]
    q = deque(maxlen=h)
    for _ in range(h):
        q.append(fs[0])
    for i, f in enumerate(fs):
        q.append(f)
        want = np.stack([fs[0]] * (h - i - 1) + fs[:i + 1])
        lz = LazyFrames(list(q), h)
        m.eq(np.array(lz), want, 'stack', f'{i + 1} of {h} frames')
        m.eq(tuple(lz.shape), (h,) + shape, 'stack-shape', '')
        m.eq(np.array(lz, dtype=float), want.astype(float), 'stack-type', '')
        m.ok(np.array(lz, dtype=float).dtype == float and np.array(lz).dtype == np.uint8, 'stack-type', '')
        m.eq(np.array(lz.copy()), want, 'stack-copy', '')
        out = np.array(lz)
        out[...] = 0
        m.eq(np.array(lz), want, 'stack-shared', 'writing to the array changed the frames')
    m.raises(AssertionError, lambda: LazyFrames(list(q), h + 1), 'stack-length')
    m.event('frames')
    a, b = int(rng.randint(4, 30)), int(rng.randint(4, 30))
    rgb = rng.randint(0, 256, (a, b, 3)).astype(np.uint8)
    if rng.rand() < .4:
        rgb[:] = rng.randint(0, 256, 3)
    keep = rgb.copy()
    same = preprocess_frame(rgb, (b, a))
    grey = rgb @ np.array([.299, .587, .114])
    m.eq(rgb, keep, 'input-altered', 'preprocessing changed the frame')
    m.ok(same.dtype == np.uint8 and same.shape == (a, b), 'grey-shape', f'{same.dtype} {same.shape}')
    m.ok(float(np.abs(same - grey).max()) <= 1.01, 'grey', f'off by {np.abs(same - grey).max()}')
    w, hh = int(rng.randint(2, 40)), int(rng.randint(2, 40))
    out = preprocess_frame(rgb, (w, hh))
    m.ok(out.shape == (hh, w) and out.dtype == np.uint8, 'resize-shape', f'{out.shape} for width {w} height {hh}')
    m.ok(out.min() >= same.min() - 1 and out.max() <= same.max() + 1, 'resize-range', 'values outside those of the frame')
    m.event('grey_frames')
    m.seen('frames', h, a, b)


# ------------------------------------------------------------------ numerical derivatives
def derivatives(m, rng):
    n = int(rng.randint(1, 6))
    A = rng.randn(n, n)
    A = A + A.T
    b = rng.randn(n)
    x = rng.randn(n)
    if rng.rand() < .3:
        x = rng.randint(-3, 4, n)
    keep = x.copy()
    got = numerical_diff_function(lambda v: .5 * v @ A @ v + b @ v + np.sin(v).sum(), x)
    m.eq(x, keep, 'input-altered', 'the parameters were changed')
    m.close(got, A @ x + b + np.cos(x), 'function', f'{n} parameters of type {x.dtype}', rtol=1e-5, atol=1e-6)
    # distribution
    d = GaussianDiagonalDistribution(rng.randn(n), np.exp(rng.randn(n) * .3))
    rho = d.get_parameters().copy()
    theta = d._mu + .3 * rng.randn(n) if hasattr(d, '_mu') else rho[:n] + .3 * rng.randn(n)
    mu, sd = rho[:n], rho[n:]
    p = np.exp(-.5 * (((theta - mu) / sd) ** 2).sum()) / np.prod(sd) / (2 * np.pi) ** (n / 2)
    want = p * np.concatenate([(theta - mu) / sd ** 2, -1 / sd + (theta - mu) ** 2 / sd ** 3])
    m.close(numerical_diff_dist(d, theta), want, 'distribution', f'{n} dimensions', rtol=1e-4, atol=1e-6 * max(1., p))
    m.close(d.get_parameters(), rho, 'distribution-left-changed', 'parameters after the derivative')
    # policy
    phi = int(rng.randint(1, 4))
    na = int(rng.randint(1, 3))
    mu_a = Regressor(LinearApproximator, input_shape=(phi,), output_shape=(na,))
    sig = np.exp(rng.randn(na) * .3)
    pi = GaussianPolicy(mu_a, np.diag(sig ** 2))
    W = rng.randn(pi.weights_size)
    pi.set_weights(W)
    s = rng.randn(phi)
    a = W.reshape(na, phi) @ s + .4 * rng.randn(na)
    r = a - W.reshape(na, phi) @ s
    p = np.exp(-.5 * ((r / sig) ** 2).sum()) / np.prod(sig) / (2 * np.pi) ** (na / 2)
    want = (p * np.outer(r / sig ** 2, s)).reshape(-1)
    m.close(numerical_diff_policy(pi, s, a), want, 'policy', f'{na} actions', rtol=1e-4, atol=1e-6)
    m.close(pi.get_weights(), W, 'policy-left-changed', 'weights after the derivative')
    m.event('derivatives', 3)
    m.seen('derivatives', n, phi, na)


def cases(tier, rng):
    n = 1 if tier == 'quick' else 8
    for _ in range(800 * n):
        yield 'minibatch', {}
    for _ in range(60 * n):
        yield 'angles', {}
    for _ in range(300 * n):
        yield 'rotations', {}
    for _ in range(120 * n):
        yield 'frames', {}
        yield 'derivatives', {}
