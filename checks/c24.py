"""C24: simulated environments against reference dynamics."""
import math

import numpy as np
from scipy import stats

from mushroom_rl.environments import (CarOnHill, CartPole, InvertedPendulum, LQR, PuddleWorld, Segway, ShipSteering, GridWorld,
                                      GridWorldVanHasselt)
from mushroom_rl.rl_utils.spaces import Box, Discrete

PROPERTY = 'C24'
RULE = ('every simulated environment is built with random constants and driven from given, default and random start states by random, '
        'extreme, out-of-range and persistent action sequences; each returned observation, reward and flag is compared with the stated '
        'dynamics integrated by an independent Runge-Kutta integrator from the previously returned observation (angles modulo a turn, '
        'flags skipped within tolerance of a threshold); start states and noises are tested as distributions at 1e-9; every trajectory is '
        'replayed from its seed on a used and on a new environment, and every observation handed out is checked again at the end')
NEED = dict(noise_pairs=300, steps=6000, replays=150, terminals=150, clipped=400, given_starts=80, random_starts=4000, noise_samples=8000, gates=60,
            out_of_field=50, held_observations=5000, bound_hits=200)
CASE_LIMIT = 120
TOL = 3e-4
P = 1e-9


def rk4(f, x, dt, n):
    h = dt / n
    x = list(x)
    for _ in range(n):
        k1 = f(x)
        k2 = f([a + .5 * h * b for a, b in zip(x, k1)])
        k3 = f([a + .5 * h * b for a, b in zip(x, k2)])
        k4 = f([a + h * b for a, b in zip(x, k3)])
        x = [a + h / 6 * (p + 2 * q + 2 * r + s) for a, p, q, r, s in zip(x, k1, k2, k3, k4)]
    return x


def adiff(a, b):
    return abs(math.remainder(a - b, 2 * math.pi))


def inside(m, env, o):
    sp = env.info.observation_space
    o = np.asarray(o)
    if isinstance(sp, Discrete):
        m.ok(o.shape == (1,) and o[0] == int(o[0]) and 0 <= o[0] < sp.n, 'observation-outside-space', str(o))
    else:
        m.ok(o.shape == sp.shape and np.all(o >= sp.low - 1e-12) and np.all(o <= sp.high + 1e-12), 'observation-outside-space', str(o))


def drive(m, env, make, start, actions, oracle, nprng, bounded=True):
    """Runs the actions; oracle(prev, action, obs, reward, flag) judges every step; then replays."""
    def go(e, watch):
        np.random.seed(nprng)
        arg = None if start is None else start.copy()
        o, info = e.reset(arg) if arg is not None else e.reset()
        m.ok(isinstance(info, dict), 'reset-info')
        held = [(o, np.array(o, copy=True))]
        out = [np.array(o, copy=True)]
        for a in actions:
            aa = a.copy()
            prev = out[-1]
            o, r, ab, info = e.step(aa)
            m.ok(np.array_equal(aa, a), 'action-modified')
            m.ok(isinstance(info, dict), 'step-info')
            m.ok(np.shape(o) == np.shape(out[0]) and np.all(np.isfinite(o)), 'observation-shape')
            m.ok(np.isscalar(r) or np.ndim(r) == 0 or np.size(r) == 1, 'reward-not-scalar')
            out += [float(r), bool(ab), np.array(o, copy=True)]
            held.append((o, out[-1]))
            if watch:
                m.event('steps')
                if bounded:
                    inside(m, e, o)
                oracle(prev, a, out[-1], float(r), bool(ab))
            if ab:
                if watch:
                    m.event('terminals')
                break
        for ref, copy in held:
            m.ok(np.array_equal(ref, copy), 'observation-altered-later', str((ref, copy)))
        if watch:
            m.event('held_observations', len(held))
        if arg is not None:
            m.ok(np.array_equal(arg, start), 'reset-state-modified')
        return out
    first = go(env, True)
    for e in (env, make()):
        again = go(e, False)
        m.ok(len(first) == len(again) and all(np.array_equal(x, y) for x, y in zip(first, again)), 'trajectory-not-reproducible')
        m.event('replays')
    m.seen(type(env).__name__, len(first))
    return first


def check_info(m, env, obs_low, obs_high, act, gamma, horizon, dt):
    i = env.info
    m.ok(isinstance(i.observation_space, Box), 'observation-space-kind')
    m.ok(np.allclose(i.observation_space.low, obs_low) and np.allclose(i.observation_space.high, obs_high), 'observation-bounds',
         str((i.observation_space.low, i.observation_space.high)))
    if isinstance(act, int):
        m.ok(isinstance(i.action_space, Discrete) and i.action_space.n == act, 'action-space')
    else:
        m.ok(isinstance(i.action_space, Box) and np.allclose(i.action_space.low, -np.asarray(act)) and
             np.allclose(i.action_space.high, act), 'action-bounds')
    m.ok(i.gamma == gamma and i.horizon == horizon and np.isclose(i.dt, dt), 'mdp-info', str((i.gamma, i.horizon, i.dt)))


def sequence(rng, n, low, high, discrete, T):
    """random, persistent and extreme action sequences"""
    style = rng.randint(4)
    out = []
    hold = None
    for t in range(T):
        if discrete:
            if style == 0 or hold is None or rng.rand() < .15:
                hold = np.array([rng.randint(n)])
            out.append(hold.copy())
        else:
            if style == 0:
                a = rng.uniform(low, high, n)
            elif style == 1:
                a = rng.uniform(3 * low, 3 * high, n)
            elif style == 2:
                a = rng.choice([low, high, 0., 10 * high, -7 * high], n)
            else:
                a = hold if hold is not None and rng.rand() > .1 else rng.uniform(1.5 * low, 1.5 * high, n)
            hold = a
            out.append(np.array(a, dtype=float))
    return out


def car(m, rng, starts):
    g, h = float(rng.choice([.95, .9])), int(rng.choice([100, 30]))
    kw = {} if rng.rand() < .5 else dict(horizon=h, gamma=g)
    make = lambda: CarOnHill(**kw)
    env = make()
    check_info(m, env, [-1, -3], [1, 3], 2, kw.get('gamma', .95), kw.get('horizon', 100), .1)
    m.close(env.reset()[0], np.array([-.5, 0.]), 'car/start', '')

    def f(u):
        def d(x):
            p, v = x
            if p < 0:
                a, b = 2 * p + 1, 2.
            else:
                a, b = (1 + 5 * p * p) ** -1.5, -15 * p * (1 + 5 * p * p) ** -2.5
            return [v, (u - 9.81 * a - v * v * a * b) / (1 + a * a)]
        return d

    def oracle(prev, a, o, r, ab):
        w = rk4(f(-4. if a[0] == 0 else 4.), prev, .1, 200)
        # across p=0 the slope derivative jumps, so both integrators lose accuracy
        tol = TOL if prev[0] * o[0] > 0 else 3e-3
        m.ok(abs(w[0] - o[0]) < tol and abs(w[1] - o[1]) < 3 * tol, 'car/dynamics', f'{prev} {a} -> {o} expected {w}')
        if min(abs(abs(o[0]) - 1), abs(abs(o[1]) - 3)) > 1e-9:
            lose = o[0] < -1 or abs(o[1]) > 3
            win = not lose and o[0] > 1
            m.eq((r, ab), (-1. if lose else 1. if win else 0., lose or win), 'car/outcome', str(o))
            m.event('car_' + ('lose' if lose else 'win' if win else 'run'))
    for k in range(starts):
        c = rng.randint(4)
        s = None if k == 0 else rng.uniform([-1, -3], [1, 3]) if c else np.array([rng.uniform(.6, 1), rng.uniform(.5, 3)])
        if s is not None:
            o = env.reset(s)[0]
            m.ok(np.array_equal(o, s), 'car/given-start')
            m.event('given_starts')
        drive(m, env, make, s, sequence(rng, 2, 0, 0, True, 40), oracle, rng.randint(2 ** 31 - 1), bounded=False)


def find_u(f, prev, o, dt, lo, hi):
    """the force that carries prev to o (final angular velocity is monotone in u over one step)"""
    def end(u):
        return rk4(f(u), prev, dt, 40)
    a, b = end(lo), end(hi)
    # secant/bisection on the unwrapped angle
    target = o[0]
    turn = round((.5 * (a[0] + b[0]) - target) / (2 * math.pi))
    target += 2 * math.pi * turn
    x0, x1, y0, y1 = lo, hi, a[0] - target, b[0] - target
    for _ in range(60):
        x = x1 - y1 * (x1 - x0) / (y1 - y0) if y1 != y0 else x1
        e = end(x)
        x0, y0, x1, y1 = x1, y1, x, e[0] - target
        if abs(y1) < 1e-11 or abs(x1 - x0) < 1e-10:
            break
    return x1, end(x1)


def cartpole(m, rng, starts):
    kw = {} if rng.rand() < .4 else dict(m=rng.uniform(1, 3), M=rng.uniform(4, 10), l=rng.uniform(.3, 1), g=rng.uniform(5, 12),
                                         max_u=rng.uniform(20, 60), noise_u=rng.choice([0., 5., 20.]), horizon=77, gamma=.8)
    make = lambda: CartPole(**kw)
    env = make()
    mm, M, l, g = kw.get('m', 2.), kw.get('M', 8.), kw.get('l', .5), kw.get('g', 9.8)
    mu, nu = kw.get('max_u', 50.), kw.get('noise_u', 10.)
    check_info(m, env, [-np.inf] * 2, [np.inf] * 2, 3, kw.get('gamma', .95), kw.get('horizon', 3000), .1)
    al = 1 / (mm + M)
    noise = []

    def f(u):
        def d(x):
            th, w = x
            return [w, (g * math.sin(th) - al * mm * l * w * w * math.sin(2 * th) / 4 - al * math.cos(th) * u) /
                    (2 * l / 3 - al * mm * l / 2 * math.cos(th) ** 2)]
        return d

    def oracle(prev, a, o, r, ab):
        u0 = (-mu, 0., mu)[a[0]]
        if nu == 0:
            w = rk4(f(u0), prev, .1, 60)
            m.ok(adiff(w[0], o[0]) < TOL and abs(w[1] - o[1]) < 10 * TOL, 'cartpole/dynamics', f'{prev} {a} -> {o} expected {w}')
        elif abs(math.cos(prev[0])) > .2:
            u, w = find_u(f, prev, o, .1, u0 - nu, u0 + nu)
            if adiff(w[0], o[0]) < 1e-6:
                m.ok(abs(w[1] - o[1]) < 5e-3 * (1 + abs(o[1])), 'cartpole/dynamics', f'{prev} {a} -> {o}: no force leads there, nearest {w}')
                if abs(u - u0) > nu + .05:      # the force may be hardly determined by the outcome: how far is an allowed one?
                    c = rk4(f(min(max(u, u0 - nu), u0 + nu)), prev, .1, 60)
                    m.ok(adiff(c[0], o[0]) < 1e-3 and abs(c[1] - o[1]) < 1e-2 * (1 + abs(o[1])), 'cartpole/force-range',
                         f'action {a} needs force {u}')
                noise.append((u - u0) / nu)
                m.event('noise_samples')
            else:
                m.event('force_not_identified')
        if abs(abs(o[0]) - math.pi / 2) > 1e-9:
            bad = abs(o[0]) > math.pi / 2
            m.eq((r, ab), (-1. if bad else 0., bad), 'cartpole/outcome', str(o))
        m.ok(abs(o[0]) <= math.pi + 1e-12, 'cartpole/angle-not-wrapped')
    for k in range(starts):
        s = None if k == 0 else np.array([rng.uniform(-1.4, 1.4), rng.uniform(-3, 3)])
        if k == 1:
            s[0] += 2 * math.pi * rng.choice([-1, 1])
        if s is not None:
            keep = s.copy()
            o = env.reset(s)[0]
            m.ok(adiff(o[0], s[0]) < 1e-9 and abs(o[0]) <= math.pi and o[1] == s[1], 'cartpole/given-start')
            m.ok(np.array_equal(s, keep), 'reset-state-modified')
            m.event('given_starts')
        drive(m, env, make, s, sequence(rng, 3, 0, 0, True, 20), oracle, rng.randint(2 ** 31 - 1), bounded=False)
    if len(noise) > 20:
        m.ok(stats.kstest(noise, 'uniform', args=(-1, 2)).pvalue > P, 'cartpole/noise-distribution', '')
    if nu:
        a = int(rng.randint(3))
        same = []
        for _ in range(250):
            s = np.array([rng.uniform(-.5, .5), rng.uniform(-1, 1)])
            env.reset(s.copy())
            o = env.step(np.array([a]))[0]
            u0 = (-mu, 0., mu)[a]
            u, w = find_u(f, s, o, .1, u0 - nu, u0 + nu)
            if adiff(w[0], o[0]) < 1e-6:
                same.append((u - u0) / nu)
        m.event('noise_samples', len(same))
        if len(same) > 150:
            m.ok(stats.kstest(same, 'uniform', args=(-1, 2)).pvalue > P, 'cartpole/noise-distribution', f'action {a}')


def pendulum(m, rng, starts):
    kw = {} if rng.rand() < .4 else dict(m=rng.uniform(.5, 2), l=rng.uniform(.5, 2), g=rng.uniform(5, 12), mu=rng.uniform(0, .5),
                                         max_u=rng.uniform(2, 30), horizon=66, gamma=.7)
    rs = bool(rng.randint(2))
    make = lambda: InvertedPendulum(random_start=rs, **kw)
    env = make()
    mm, l, g, mu, mx = (kw.get('m', 1.), kw.get('l', 1.), kw.get('g', 9.8), kw.get('mu', 1e-2), kw.get('max_u', 5.))
    W = 2.5 * math.pi
    check_info(m, env, [-math.pi, -W], [math.pi, W], [mx], kw.get('gamma', .99), kw.get('horizon', 5000), .01)
    if not rs:
        m.close(env.reset()[0], np.array([math.pi / 2, 0.]), 'pendulum/start', '')

    def oracle(prev, a, o, r, ab):
        u = min(max(a[0], -mx), mx)
        m.event('clipped', int(u != a[0]))

        def d(x):
            w = min(max(x[1], -W), W)
            return [w, (-mu * w + mm * g * l * math.sin(x[0]) + u) / (mm * l * l)]
        w = rk4(d, prev, .01, 12)
        w[1] = min(max(w[1], -W), W)
        m.event('bound_hits', int(abs(w[1]) >= W))
        m.ok(adiff(w[0], o[0]) < 1e-5 and abs(w[1] - o[1]) < 3e-5, 'pendulum/dynamics', f'{prev} {a} -> {o} expected {w}')
        m.ok(not ab, 'pendulum/terminates')
        m.close(r, math.cos(o[0]), 'pendulum/reward', '')
    for k in range(starts):
        s = None if k == 0 else np.array([rng.uniform(-math.pi, math.pi), rng.uniform(-W, W)])
        if k == 1:
            s = np.array([rng.uniform(4, 12), rng.choice([-1, 1]) * rng.uniform(8, 30)])
        if s is not None:
            keep = s.copy()
            o = env.reset(s)[0]
            m.ok(adiff(o[0], s[0]) < 1e-9 and abs(o[0]) <= math.pi and o[1] == min(max(s[1], -W), W), 'pendulum/given-start')
            m.ok(np.array_equal(s, keep), 'reset-state-modified')
            m.event('given_starts')
        drive(m, env, make, s, sequence(rng, 1, -mx, mx, False, 60), oracle, rng.randint(2 ** 31 - 1))


def segway(m, rng, starts):
    rs = bool(rng.randint(2))
    make = lambda: Segway(random_start=rs)
    env = make()
    check_info(m, env, [-math.pi / 2, -15, -75], [math.pi / 2, 15, 75], [5.], .97, 300, .01)
    Mr, Mp, Ip, Ir, l, r_, g = .6, 2.55, 2.6e-2, 9.08e-4, 13.8e-2, 5.5e-2, 9.81
    if not rs:
        m.close(env.reset()[0], np.array([-math.pi / 8, 0., 0.]), 'segway/start', '')

    def oracle(prev, a, o, r, ab):
        u = min(max(a[0], -5.), 5.)
        m.event('clipped', int(u != a[0]))

        def d(x):
            h1 = (Mr + Mp) * r_ ** 2 + Ir
            h2 = Mp * r_ * l * math.cos(x[0])
            h3 = l ** 2 * Mp + Ip
            D = h1 * h3 - h2 ** 2
            c = l * Mp * r_ * math.sin(x[0]) * x[1] ** 2
            gr = g * l * Mp * math.sin(x[0])
            return [x[1], -(h2 * c - h1 * gr + (h2 + h1) * u) / D, (h3 * c - h2 * gr + (h3 + h2) * u) / D]
        w = rk4(d, prev, .01, 30)
        sc = 1 + np.abs(w)
        m.ok(adiff(w[0], o[0]) < 1e-5 and abs(w[1] - o[1]) < 1e-4 * sc[1] and abs(w[2] - o[2]) < 1e-4 * sc[2], 'segway/dynamics',
             f'{prev} {a} -> {o} expected {w}')
        if abs(abs(o[0]) - math.pi / 2) > 1e-9:
            bad = abs(o[0]) > math.pi / 2
            m.eq(ab, bad, 'segway/terminal', str(o))
            m.close(r, -10000. if bad else -(3 * o[0] ** 2 + .1 * o[1] ** 2 + .1 * o[2] ** 2), 'segway/reward', str(o))
            if not bad:
                m.ok(abs(o[0]) <= env.info.observation_space.high[0] + 1e-12, 'segway/angle-outside-space')
    for k in range(starts):
        s = None if k == 0 else np.array([rng.uniform(-1.5, 1.5), rng.uniform(-8, 8), rng.uniform(-40, 40)])
        if k == 1:
            s[0] += 2 * math.pi * rng.choice([-1, 1])
        if s is not None:
            keep = s.copy()
            o = env.reset(s)[0]
            m.ok(adiff(o[0], s[0]) < 1e-9 and abs(o[0]) <= math.pi and np.array_equal(o[1:], s[1:]), 'segway/given-start')
            m.ok(np.array_equal(s, keep), 'reset-state-modified')
            m.event('given_starts')
        drive(m, env, make, s, sequence(rng, 1, -5., 5., False, 50), oracle, rng.randint(2 ** 31 - 1), bounded=False)


def lqr(m, rng, generated, starts):
    n, k = rng.randint(1, 5), rng.randint(1, 4)
    mp = float(rng.choice([np.inf, 2., 5., 10.]))
    ma = float(rng.choice([np.inf, 1., 3.]))
    kw = dict(max_pos=mp, max_action=ma, random_init=bool(rng.randint(2)), episodic=bool(rng.randint(2)), gamma=.8, horizon=33)
    if rng.rand() < .4:
        kw['initial_state'] = rng.uniform(-1.5, 1.5, n)
    if generated:
        eps, sc, idx = rng.uniform(.05, .95), rng.uniform(.5, 3), rng.randint(min(n, k))
        if rng.rand() < .4:
            k = n
            idx = rng.randint(n)
            args = dict(dimensions=n)
        else:
            args = dict(s_dim=n, a_dim=k)
        make = lambda: LQR.generate(eps=eps, scale=sc, index=idx, **args, **kw)
        A, B = np.eye(n), np.zeros((n, k))
        for i in range(min(n, k)):
            B[i, i] = 1.
        Q, R = np.diag([eps * sc] * n), np.diag([(1 - eps) * sc] * k)
        Q[idx, idx], R[idx, idx] = (1 - eps) * sc, eps * sc
        dt = .1
    else:
        A, B, Q, R = rng.randn(n, n) * .8, rng.randn(n, k), rng.randn(n, n), rng.randn(k, k)
        dt = .25
        make = lambda: LQR(A.copy(), B.copy(), Q.copy(), R.copy(), dt=dt, **kw)
    env = make()
    for got, want in ((env.A, A), (env.B, B), (env.Q, Q), (env.R, R)):
        m.close(got, want, 'lqr/matrices', '')
    check_info(m, env, [-mp] * n, [mp] * n, [ma] * k, .8, 33, dt)
    if not kw['random_init']:
        want = kw['initial_state'] if 'initial_state' in kw else np.full(n, .9 * mp if np.isfinite(mp) else 10.)
        m.close(env.reset()[0], want, 'lqr/start', '')

    def oracle(prev, a, o, r, ab):
        u = np.clip(a, -ma, ma)
        m.event('clipped', int(np.any(u != a)))
        x = np.array([sum(A[i, j] * prev[j] for j in range(n)) + sum(B[i, j] * u[j] for j in range(k)) for i in range(n)])
        cost = sum(prev[i] * Q[i, j] * prev[j] for i in range(n) for j in range(n)) + \
            sum(u[i] * R[i, j] * u[j] for i in range(k) for j in range(k))
        if np.any(np.abs(np.abs(x) - mp) < 1e-9):
            return
        over = bool(np.any(np.abs(x) > mp))
        m.event('bound_hits', int(over))
        end = over and kw['episodic']
        m.eq(ab, end, 'lqr/terminal', str((x, mp)))
        sc = 1 + np.abs(x).max()
        m.close(o, x if end else np.clip(x, -mp, mp), 'lqr/dynamics', f'{prev} {a}', rtol=1e-8, atol=1e-9 * sc)
        m.close(r, -mp ** 2 * 10 if end else -cost, 'lqr/reward', f'{prev} {a}', rtol=1e-8, atol=1e-8)
    for j in range(starts):
        s = None if j == 0 else rng.uniform(-1, 1, n) * (mp if np.isfinite(mp) else 5)
        if s is not None:
            m.ok(np.array_equal(env.reset(s)[0], s), 'lqr/given-start')
            m.event('given_starts')
        hi = ma if np.isfinite(ma) else 2.
        drive(m, env, make, s, sequence(rng, k, -hi, hi, False, 25), oracle, rng.randint(2 ** 31 - 1), bounded=not kw['episodic'])


def puddle(m, rng, starts):
    kw = {}
    nz, nr, th = .025, 0., .05
    if rng.rand() < .7:
        nz, nr, th = float(rng.choice([0., .01, .05])), float(rng.choice([0., .5])), float(rng.choice([.03, .1]))
        kw = dict(noise_step=nz, noise_reward=nr, thrust=th, reward_goal=float(rng.choice([0., 7.])), goal_threshold=rng.uniform(.05, .3),
                  gamma=.9, horizon=44, start=rng.rand(2), goal=rng.rand(2))
        if rng.rand() < .7:
            q = rng.randint(0, 4)
            kw.update(puddle_center=rng.rand(q, 2).tolist(), puddle_width=rng.uniform(.02, .3, (q, 2)).tolist())
    make = lambda: PuddleWorld(**kw)
    env = make()
    check_info(m, env, [0., 0.], [1., 1.], 5, kw.get('gamma', .99), kw.get('horizon', 5000), .1)
    goal, st = kw.get('goal', np.ones(2)), kw.get('start', np.array([.2, .4]))
    centers = kw.get('puddle_center', [[.3, .6], [.4, .5], [.8, .9]])
    widths = kw.get('puddle_width', [[.1, .03], [.03, .1], [.03, .1]])
    m.close(env.reset()[0], st, 'puddle/start', '')
    moves = np.array([[-th, 0], [th, 0], [0, -th], [0, th], [0, 0]])
    noise, rn, pair = [], [], []

    def pdf(x, c, w):
        return math.exp(-.5 * ((x - c) / w) ** 2) / (w * math.sqrt(2 * math.pi))

    def oracle(prev, a, o, r, ab):
        d = o - prev - moves[a[0]]
        for i in range(2):
            if 0 < o[i] < 1:
                m.ok(abs(d[i]) <= nz + 1e-12, 'puddle/move', f'{prev} {a} -> {o}')
                if nz:
                    noise.append(d[i] / nz)
                    f = prev + moves[a[0]]
                    if i and min(f) > nz and max(f) < 1 - nz:           # the walls cannot touch this move
                        pair.append(d / nz)
                    m.event('noise_samples')
            else:
                m.event('bound_hits')
                full = prev[i] + moves[a[0]][i]
                m.ok(full - nz <= 0 if o[i] == 0 else full + nz >= 1, 'puddle/clipped-needlessly', f'{prev} {a} -> {o}')
        dist = np.abs(o - goal).sum()
        if abs(dist - kw.get('goal_threshold', .1)) > 1e-9:
            end = dist < kw.get('goal_threshold', .1)
            m.eq(ab, bool(end), 'puddle/terminal', str((o, goal)))
            want = -1. - sum(2 * pdf(o[0], c[0], w[0]) * pdf(o[1], c[1], w[1]) for c, w in zip(centers, widths))
            if end:
                m.eq(r, float(kw.get('reward_goal', 0.)), 'puddle/goal-reward', '')
            elif nr == 0:
                m.close(r, want, 'puddle/reward', str(o), rtol=1e-9)
            else:
                m.ok(abs(r - want) < 8 * nr, 'puddle/noisy-reward', str(r - want))
                rn.append((r - want) / nr)
    for k in range(starts):
        s = None if k == 0 else rng.rand(2)
        if s is not None:
            m.ok(np.array_equal(env.reset(s)[0], s), 'puddle/given-start')
            m.event('given_starts')
        drive(m, env, make, s, sequence(rng, 5, 0, 0, True, 60), oracle, rng.randint(2 ** 31 - 1))
    if len(noise) > 50:
        m.ok(stats.kstest(noise, 'uniform', args=(-1, 2)).pvalue > P, 'puddle/noise-distribution', '')
    if len(pair) > 50:
        x = np.array(pair)
        m.ok(stats.spearmanr(x[:, 0], x[:, 1]).pvalue > P, 'puddle/noise-of-the-coordinates-dependent', '')
        m.event('noise_pairs', len(pair))
    if len(rn) > 50:
        m.ok(stats.kstest(rn, 'norm').pvalue > P, 'puddle/reward-noise-distribution', '')


def ship(m, rng, small, starts):
    ns = int(rng.choice([3, 1, 10, 30]))
    kw = {} if ns == 3 and rng.rand() < .5 else dict(n_steps_action=ns)
    if not small or rng.rand() < .5:
        kw['small'] = small
    make = lambda: ShipSteering(**kw)
    env = make()
    F = 150. if small else 1000.
    W = math.pi / 12
    check_info(m, env, [0, 0, -math.pi, -W], [F, F, math.pi, W], [W], .99, 5000, .2)
    gs, ge = (np.array([100., 120.]), np.array([120., 100.])) if small else (np.array([350., 400.]), np.array([450., 400.]))
    if small:
        m.close(env.reset()[0], np.array([0., 0., math.pi / 2, 0.]), 'ship/start', '')

    def side(p, a, b):
        return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])

    def crossing(a, b):
        """True / False / None (too close to tell)"""
        v = [side(a, gs, ge), side(b, gs, ge), side(gs, a, b), side(ge, a, b)]
        if any(abs(x) < 1e-6 for x in v):
            return None
        return v[0] * v[1] < 0 and v[2] * v[3] < 0

    def oracle(prev, a, o, r, ab):
        u = min(max(a[0], -W), W)
        m.event('clipped', int(u != a[0]))
        x = list(prev)
        rew, end, unsure = -1., False, False
        for _ in range(ns):
            y = [x[0] + 3 * math.cos(x[2]) * .2, x[1] + 3 * math.sin(x[2]) * .2, x[2] + x[3] * .2, x[3] + (u - x[3]) * .2 / 5]
            if any(abs(c) < 1e-9 or abs(c - F) < 1e-9 for c in y[:2]):
                return
            if not (0 <= y[0] <= F and 0 <= y[1] <= F):
                y[0], y[1] = min(max(y[0], 0), F), min(max(y[1], 0), F)
                rew, end = -100., True
                x = y
                break
            c = crossing(x[:2], y[:2])
            if c is None:
                return
            x = y
            if c:
                rew, end = 0., True
                break
        if end:
            m.event('gates' if rew == 0 else 'out_of_field')
        m.ok(abs(x[0] - o[0]) < 1e-8 and abs(x[1] - o[1]) < 1e-8 and adiff(x[2], o[2]) < 1e-8 and abs(x[3] - o[3]) < 1e-10,
             'ship/dynamics', f'{prev} {a} -> {o} expected {x}')
        m.eq((r, ab), (rew, end), 'ship/outcome', f'{prev} {a}')
    for k in range(starts):
        if k == 0:
            s = None
        elif k % 3 == 1:
            s = rng.uniform([0, 0, -math.pi, -W], [F, F, math.pi, W])
        elif k % 3 == 2:                # turning hard next to a post of the gate
            t = (gs if rng.rand() < .5 else ge) + rng.uniform(-.4, .4, 2)
            w = W * rng.choice([-1, 1])
            x = [t[0], t[1], rng.uniform(-math.pi, math.pi), w]
            for _ in range(int(rng.randint(1, ns + 1))):        # back in time
                x[2] -= w * .2
                x[0], x[1] = x[0] - .6 * math.cos(x[2]), x[1] - .6 * math.sin(x[2])
            s = np.array(x)
            m.event('near_posts')
        else:  # heading for the gate from either side
            t = gs + rng.rand() * (ge - gs)
            ang = rng.uniform(-math.pi, math.pi)
            d = rng.uniform(1, 15)
            if rng.rand() < .5:             # almost along the gate
                along = ge - gs if rng.rand() < .5 else gs - ge
                ang = math.atan2(along[1], along[0]) + rng.choice([-1, 1]) * rng.choice([.005, .02, .04, .1])
                d = rng.uniform(.05, 2)
                m.event('grazing')
            s = np.array([t[0] - d * math.cos(ang), t[1] - d * math.sin(ang), ang, 0.])
        if s is not None:
            m.ok(np.array_equal(env.reset(s)[0], s), 'ship/given-start')
            m.event('given_starts')
        drive(m, env, make, s, sequence(rng, 1, -W, W, False, 40), oracle, rng.randint(2 ** 31 - 1))


def grid(m, rng, hasselt, starts):
    H, Wd = rng.randint(1, 7), rng.randint(2, 7)
    goal = (rng.randint(H), rng.randint(Wd))
    while True:
        st = (rng.randint(H), rng.randint(Wd))
        if st != goal:
            break
    if hasselt:
        default = rng.rand() < .3
        if default:
            H, Wd, goal, st = 3, 3, (0, 2), (2, 0)
        make = (lambda: GridWorldVanHasselt()) if default else (lambda: GridWorldVanHasselt(H, Wd, goal, st))
        gamma, hor = .95, np.inf
    else:
        default = rng.rand() < .3 and goal != (0, 0)
        if default:
            st = (0, 0)
        make = (lambda: GridWorld(H, Wd, goal)) if default else (lambda: GridWorld(H, Wd, goal, st, dt=.5))
        gamma, hor = .9, 100
    env = make()
    i = env.info
    m.ok(isinstance(i.observation_space, Discrete) and i.observation_space.n == H * Wd and i.action_space.n == 4, 'grid/spaces')
    m.ok(i.gamma == gamma and i.horizon == hor, 'grid/info')
    o = env.reset()[0]
    m.ok(np.array_equal(o, [st[0] * Wd + st[1]]), 'grid/start', str(o))
    rs = []

    def oracle(prev, a, o, r, ab):
        row, col = divmod(int(prev[0]), Wd)
        at_goal = (row, col) == goal
        if not (hasselt and at_goal):
            if a[0] == 0:
                row = max(row - 1, 0)
            elif a[0] == 1:
                row = min(row + 1, H - 1)
            elif a[0] == 2:
                col = max(col - 1, 0)
            else:
                col = min(col + 1, Wd - 1)
        m.eq(int(o[0]), row * Wd + col, 'grid/move', f'{prev} {a} in {H}x{Wd}')
        if hasselt:
            m.eq(ab, at_goal, 'grid/terminal', '')
            if at_goal:
                m.eq(r, 5., 'grid/reward', '')
            else:
                m.ok(r in (-12., 10.), 'grid/reward', str(r))
                rs.append(r == 10.)
        else:
            win = (row, col) == goal
            m.eq((r, ab), (10. if win else 0., win), 'grid/outcome', '')
    for k in range(starts):
        s = None if k == 0 else np.array([rng.randint(H * Wd)])
        if s is not None:
            m.ok(np.array_equal(env.reset(s)[0], s), 'grid/given-start')
            m.event('given_starts')
        drive(m, env, make, s, sequence(rng, 4, 0, 0, True, 40), oracle, rng.randint(2 ** 31 - 1))
    if len(rs) > 50:
        m.ok(stats.binomtest(int(sum(rs)), len(rs), .5).pvalue > P, 'grid/reward-distribution', str((sum(rs), len(rs))))


def start_states(m, rng, kind, n):
    np.random.seed(rng.randint(2 ** 31 - 1))
    if kind == 'cartpole':
        env, dims = CartPole(), [(-math.pi / 8, math.pi / 8), 0.]
    elif kind == 'pendulum':
        env, dims = InvertedPendulum(random_start=True), [(-math.pi, math.pi), 0.]
    elif kind == 'segway':
        env, dims = Segway(random_start=True), [(-math.pi / 2, math.pi / 2), 0., 0.]
    elif kind == 'ship':
        env, dims = ShipSteering(small=False), [(0, 1000), (0, 1000), (-math.pi, math.pi), (-math.pi / 12, math.pi / 12)]
    elif kind == 'lqr':
        env, dims = LQR.generate(dimensions=2, random_init=True), [(-3, 3), (-3, 3)]
    else:
        env, dims = LQR.generate(dimensions=2, random_init=True, max_pos=2.), None
    x = np.array([env.reset()[0].copy() for _ in range(n)])
    m.event('random_starts', n)
    if dims is None:  # the random start is bounded to the state space
        m.ok(np.abs(x).max() <= 2., 'start/outside-space')
        for j in range(2):
            c = x[:, j]
            inner = c[np.abs(c) < 2]
            m.ok(stats.binomtest(int((c == 2).sum()), n, 1 / 6).pvalue > P and stats.binomtest(int((c == -2).sum()), n, 1 / 6).pvalue > P,
                 'start/bounded-distribution')
            m.ok(stats.kstest(inner, 'uniform', args=(-2, 4)).pvalue > P, 'start/bounded-distribution')
        return
    for j, d in enumerate(dims):
        if isinstance(d, tuple):
            m.ok(x[:, j].min() >= d[0] and x[:, j].max() <= d[1], 'start/range', kind)
            m.ok(stats.kstest(x[:, j], 'uniform', args=(d[0], d[1] - d[0])).pvalue > P, 'start/distribution', kind)
        else:
            m.ok(np.all(x[:, j] == d), 'start/constant-component', kind)
    free = [j for j, d in enumerate(dims) if isinstance(d, tuple)]
    for a in free:
        for b in free:
            if a < b:
                m.ok(abs(stats.spearmanr(x[:, a], x[:, b]).statistic) < 7 / math.sqrt(n), 'start/dependent-components', kind)


def cases(tier, rng):
    q = 4 if tier == 'quick' else 60
    for _ in range(4 * q):
        yield 'car', dict(starts=8)
        yield 'cartpole', dict(starts=10)
        yield 'pendulum', dict(starts=6)
        yield 'segway', dict(starts=6)
        yield 'puddle', dict(starts=12)
        yield 'ship', dict(small=True, starts=14)
        yield 'ship', dict(small=False, starts=14)
    for _ in range(6 * q):
        yield 'lqr', dict(generated=True, starts=5)
        yield 'lqr', dict(generated=False, starts=5)
        yield 'grid', dict(hasselt=True, starts=6)
        yield 'grid', dict(hasselt=False, starts=6)
    for k in ('cartpole', 'pendulum', 'segway', 'ship', 'lqr', 'lqr_bounded'):
        for _ in range(q):
            yield 'start_states', dict(kind=k, n=2000)
