"""C26: planning solvers."""
import numpy as np

from mushroom_rl.environments import LQR, CarOnHill
from mushroom_rl.solvers.dynamic_programming import value_iteration, policy_iteration
from mushroom_rl.solvers.lqr import (compute_lqr_feedback_gain, compute_lqr_P, compute_lqr_V, compute_lqr_V_gaussian_policy,
                                     compute_lqr_Q, compute_lqr_Q_gaussian_policy, compute_lqr_V_gaussian_policy_gradient_K,
                                     compute_lqr_Q_gaussian_policy_gradient_K)
from mushroom_rl.solvers.car_on_hill import solve_car_on_hill

PROPERTY = 'C26'
RULE = ('random finite MDPs (terminal states, duplicated and dominated actions, negative rewards, discounts from 0 to 0.99, tolerances '
        'from 10 to 1e-9) solved by value and policy iteration and compared with an independently converged optimum and with the '
        'evaluation of the returned policy; random stabilizable linear-quadratic problems whose gain, values, action values and '
        'gradients are compared with simulated discounted costs of the environment, with propagated second moments and with finite '
        'differences of those; car-on-hill action values compared with exhaustive search over plans in the environment')
NEED = dict(value_iterations=150, policy_iterations=150, terminal_states=100, tight_tolerance=30, gains=40, closed_loops=150,
            perturbed_gains=200, rollouts=100, gradients=60, batches=60, plans=15, failures=3)
CASE_LIMIT = 200


def dp(m, rng, ns, na, gamma):
    p = rng.dirichlet(np.full(ns, .5), (ns, na)) * (rng.rand(ns, na, ns) < .6)
    p[..., rng.randint(ns)] += 1e-3
    p /= p.sum(-1, keepdims=True)
    term = rng.rand(ns) < .2
    p[term] = 0
    r = rng.randn(ns, na, ns) * 10 ** rng.uniform(-1, 2)
    c = rng.randint(4)
    if c == 0:
        r = -np.abs(r)
    elif c == 1:  # sparse rewards
        r *= rng.rand(ns, na, ns) < .1
    elif c == 2 and na > 1:  # two equal actions
        p[:, -1], r[:, -1] = p[:, 0], r[:, 0]
    if c == 3:  # the best action is not the best on the first step
        r[:, 0] += np.abs(r).max() * .3
    rm = (p * r).sum(-1)
    v = np.zeros(ns)
    for _ in range(200000):
        w = (rm + gamma * p @ v).max(1)
        d = np.abs(w - v).max()
        v = w
        if d * gamma / (1 - gamma) <= 1e-12 * (1 + np.abs(v).max()):
            break
    scale = 1 + np.abs(v).max()
    p0, r0 = p.copy(), r.copy()
    eps = float(rng.choice([10., 1., 1e-2, 1e-5, 1e-9])) * scale ** rng.randint(2)
    got = np.asarray(value_iteration(p, r, gamma, eps))
    m.ok(got.shape == (ns,), 'vi/shape')
    err = np.abs(got - v).max()
    m.ok(err <= gamma / (1 - gamma) * eps * (1 + 1e-9) + 1e-10 * scale, 'vi/accuracy', f'error {err} eps {eps} gamma {gamma}')
    m.event('value_iterations')
    m.event('tight_tolerance', int(eps < 1e-7 * scale))
    val, pol = policy_iteration(p, r, gamma)
    val, pol = np.asarray(val), np.asarray(pol)
    m.ok(np.array_equal(p, p0) and np.array_equal(r, r0), 'dp/matrices-modified')
    m.ok(val.shape == (ns,) and pol.shape == (ns,) and np.all((0 <= pol) & (pol < na)) and np.array_equal(pol, pol.astype(int)),
         'pi/policy-range')
    pol = pol.astype(int)
    ev = np.linalg.solve(np.eye(ns) - gamma * p[np.arange(ns), pol], rm[np.arange(ns), pol])
    m.close(val, ev, 'pi/value-of-policy', '', rtol=1e-8, atol=1e-8 * scale)
    # policy iteration treats actions whose values agree to 1e-5 relative as equal
    slack = (1e-8 + 1e-5 * scale) * 1.01
    m.ok(np.abs(val - v).max() <= slack / (1 - gamma) + 1e-9 * scale, 'pi/optimal', f'{np.abs(val - v).max()} gamma {gamma}')
    q = rm + gamma * p @ val
    m.ok(np.all(q[np.arange(ns), pol] >= q.max(1) - slack), 'pi/greedy', '')
    m.ok(np.all(val[term] == 0) and np.all(got[term] == 0), 'dp/terminal-value')
    m.event('policy_iterations')
    m.event('terminal_states', int(term.sum()))
    m.seen(ns, na, gamma, eps, tuple(pol))


def spd(rng, n):
    a = rng.randn(n, n)
    return a @ a.T / n + .2 * np.eye(n)


def problem(rng):
    n, k = rng.randint(1, 5), rng.randint(1, 4)
    gamma = float(rng.choice([.9, .5, .95, .99, .1]))
    A, B = rng.randn(n, n) * .7 / np.sqrt(n) + .4 * np.eye(n), rng.randn(n, k)
    if rng.rand() < .2:
        env = LQR.generate(s_dim=n, a_dim=k, eps=rng.uniform(.05, .9), gamma=gamma)
    else:
        env = LQR(A, B, spd(rng, n), spd(rng, k), gamma=gamma)
    return env, n, k, gamma


def J(env, K, S, Sigma, gamma, tol=1e-13):
    """discounted cost of u=-Kx+noise from second moment S, by propagating the second moment"""
    A, B, Q, R = env.A, env.B, env.Q, env.R
    F = A - B @ K
    C = Q + K.T @ R @ K
    tot, g = 0., 1.
    for t in range(20000):
        c = np.trace(C @ S) + np.trace(R @ Sigma)
        tot += g * c
        S = F @ S @ F.T + B @ Sigma @ B.T
        g *= gamma
        if t > 20 and g * abs(c) < tol * (1 + abs(tot)) and g * np.abs(S).max() < tol * (1 + abs(tot)):
            break
    return tot


def lqr(m, rng):
    env, n, k, gamma = problem(rng)
    A, B, Q, R = env.A.copy(), env.B.copy(), env.Q.copy(), env.R.copy()
    # reference optimum: plain recursion on the value matrix
    Pm = np.eye(n)
    for _ in range(20000):
        G = np.linalg.solve(R + gamma * B.T @ Pm @ B, gamma * B.T @ Pm @ A)
        new = Q + gamma * A.T @ Pm @ A - gamma * A.T @ Pm @ B @ G
        d = np.abs(new - Pm).max()
        Pm = .5 * (new + new.T)
        if d < 1e-13 * (1 + np.abs(Pm).max()):
            break
    rate = gamma * np.abs(np.linalg.eigvals(A - B @ G)).max() ** 2
    its = 100 if rate < .75 else 3000
    Ko = np.asarray(compute_lqr_feedback_gain(env) if its == 100 else compute_lqr_feedback_gain(env, max_iterations=its))
    if rate < .985:
        m.close(Ko, G, 'lqr/optimal-gain', f'rate {rate}', rtol=1e-6, atol=1e-7)
        m.event('gains')
    zero = np.zeros((k, k))
    x = rng.randn(n) * 2
    X = np.outer(x, x)
    best = J(env, Ko, X, zero, gamma)
    for _ in range(4):
        K2 = Ko + rng.randn(k, n) * 10 ** rng.uniform(-3, 0)
        if gamma * np.abs(np.linalg.eigvals(A - B @ K2)).max() ** 2 < .97:
            m.ok(J(env, K2, X, zero, gamma) >= best - 1e-8 * (1 + best), 'lqr/gain-not-optimal')
            m.event('perturbed_gains')
    # any stabilizing controller
    for _ in range(6):
        K = Ko + rng.randn(k, n) * rng.choice([.05, .3])
        if gamma * np.abs(np.linalg.eigvals(A - B @ K)).max() ** 2 > .93:
            continue
        m.event('closed_loops')
        Sig = spd(rng, k) * .3
        N = rng.randint(1, 5)
        s, a = rng.randn(N, n), rng.randn(N, k)
        m.event('batches', int(N > 1))
        args = (s.copy(), a.copy(), K.copy(), Sig.copy())
        tol = dict(rtol=1e-7, atol=1e-8)
        P = np.asarray(compute_lqr_P(env, K))
        V = np.asarray(compute_lqr_V(s, env, K))
        VG = np.asarray(compute_lqr_V_gaussian_policy(s, env, K, Sig))
        Qv = np.asarray(compute_lqr_Q(s, a, env, K))
        QG = np.asarray(compute_lqr_Q_gaussian_policy(s, a, env, K, Sig))
        for z in (V, VG, Qv, QG):
            m.ok(z.shape == (N, 1), 'lqr/value-shape', str(z.shape))
        for i in range(N):
            S0 = np.outer(s[i], s[i])
            m.close(V[i, 0], -J(env, K, S0, zero, gamma), 'lqr/value', '', **tol)
            m.close(s[i] @ P @ s[i], -V[i, 0], 'lqr/value-matrix', '', **tol)
            m.close(VG[i, 0], -J(env, K, S0, Sig, gamma), 'lqr/gaussian-value', '', **tol)
            nx = A @ s[i] + B @ a[i]
            c = s[i] @ Q @ s[i] + a[i] @ R @ a[i]
            m.close(Qv[i, 0], -c - gamma * J(env, K, np.outer(nx, nx), zero, gamma), 'lqr/action-value', '', **tol)
            m.close(QG[i, 0], -c - gamma * J(env, K, np.outer(nx, nx), Sig, gamma), 'lqr/gaussian-action-value', '', **tol)
        for f, want in ((compute_lqr_V(s[0], env, K), V[0]), (compute_lqr_V_gaussian_policy(s[0], env, K, Sig), VG[0]),
                        (compute_lqr_Q(s[0], a[0], env, K), Qv[0]), (compute_lqr_Q_gaussian_policy(s[0], a[0], env, K, Sig), QG[0])):
            m.close(np.ravel(f), want, 'lqr/single-state', '', rtol=1e-9)
        if rng.rand() < .5:
            dV = np.asarray(compute_lqr_V_gaussian_policy_gradient_K(s, env, K, Sig))
            dQ = np.asarray(compute_lqr_Q_gaussian_policy_gradient_K(s, a, env, K, Sig))
            m.ok(dV.shape == (N, k * n) and dQ.shape == (N, k * n), 'lqr/gradient-shape', str(dV.shape))
            h = 1e-5
            for i in range(N):
                nx = A @ s[i] + B @ a[i]
                fv, fq = np.zeros(k * n), np.zeros(k * n)
                for e in range(k * n):
                    D = np.zeros(k * n)
                    D[e] = h
                    D = D.reshape(k, n)
                    fv[e] = -(J(env, K + D, np.outer(s[i], s[i]), Sig, gamma) - J(env, K - D, np.outer(s[i], s[i]), Sig, gamma)) / (2 * h)
                    fq[e] = -gamma * (J(env, K + D, np.outer(nx, nx), Sig, gamma) - J(env, K - D, np.outer(nx, nx), Sig, gamma)) / (2 * h)
                sc = 1 + np.abs(fv).max() + np.abs(VG[i, 0])
                m.close(dV[i], fv, 'lqr/value-gradient', '', rtol=1e-4, atol=3e-6 * sc)
                sc = 1 + np.abs(fq).max() + np.abs(QG[i, 0])
                m.close(dQ[i], fq, 'lqr/action-value-gradient', '', rtol=1e-4, atol=3e-6 * sc)
            m.event('gradients')
        m.ok(all(np.array_equal(u, w) for u, w in zip(args, (s, a, K, Sig))), 'lqr/arguments-modified')
        m.ok(all(np.array_equal(u, w) for u, w in zip((A, B, Q, R), (env.A, env.B, env.Q, env.R))), 'lqr/problem-modified')
        # the environment itself earns that value
        tot, g = 0., 1.
        o = env.reset(s[0].copy())[0]
        for _ in range(4000):
            o, rew, _, _ = env.step(-K @ o)
            tot += g * rew
            g *= gamma
            if g * abs(rew) < 1e-13 and g * np.abs(o).max() ** 2 < 1e-13:
                break
        m.close(V[0, 0], tot, 'lqr/simulated-value', '', rtol=1e-6, atol=1e-8)
        m.event('rollouts')
        m.seen(n, k, gamma, N)


def car(m, rng):
    gamma = float(rng.choice([.95, .9, .5]))
    env = CarOnHill()

    def search(state, depth):
        """length of the shortest plan reaching the goal, or None"""
        front = [state]
        for d in range(1, depth + 1):
            nxt = []
            for f in front:
                for a in (0, 1):
                    env.reset(f.copy())
                    s, r, ab, _ = env.step(np.array([a]))
                    if r == 1:
                        return d
                    if not ab:
                        nxt.append(s.copy())
            front = nxt
            if not front:
                return None
        return 0
    states, actions, want = [], [], []
    while len(states) < 6:
        s = np.array([rng.uniform(.2, 1.), rng.uniform(-.5, 3.)]) if rng.rand() < .8 else rng.uniform([-1, -3], [1, 3])
        a = rng.randint(2)
        env.reset(s.copy())
        o, r, ab, _ = env.step(np.array([a]))
        if r == 1:
            w = 1.
        elif r == -1:
            w = -1.
        else:
            d = search(o.copy(), 7)
            if not d:
                continue
            w = gamma ** d
        states.append(s)
        actions.append([a])
        want.append(w)
    S, Ac = np.array(states), np.array(actions)
    S0, A0 = S.copy(), Ac.copy()
    q = solve_car_on_hill(env, S, Ac, gamma, **({} if rng.rand() < .5 else dict(max_k=10)))
    m.ok(np.array_equal(S, S0) and np.array_equal(Ac, A0), 'car/arguments-modified')
    m.close(np.array(q), np.array(want), 'car/action-value', str((S.tolist(), Ac.tolist())), rtol=1e-12)
    m.event('plans', sum(w > 0 for w in want))
    m.event('failures', sum(w < 0 for w in want))
    m.seen(tuple(want))


def cases(tier, rng):
    q = 1 if tier == 'quick' else 20
    for g in (0., .3, .9, .95, .99):
        for _ in range(40 * q):
            yield 'dp', dict(ns=int(rng.randint(1, 9)), na=int(rng.randint(1, 5)), gamma=g)
    for _ in range(10 * q):
        yield 'dp', dict(ns=int(rng.randint(20, 90)), na=int(rng.randint(2, 9)), gamma=float(rng.choice([.3, .9, .95])))
    for _ in range(60 * q):
        yield 'lqr', {}
    for _ in range(8 * q):
        yield 'car', {}
