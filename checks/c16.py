"""C16: return and advantage estimators against forward sums."""
import numpy as np
import torch
from mushroom_rl.algorithms.actor_critic import PPO_BPTT
from mushroom_rl.approximators import Regressor
from mushroom_rl.core import Dataset
from mushroom_rl.rl_utils.value_functions import compute_advantage, compute_advantage_montecarlo, compute_gae
from vlib.agents import build, seed_all

PROPERTY = 'C16'
RULE = 'advantages and value targets equal the forward sums of their definition on every flag pattern'
NEED = dict(gae_rows=5000, bptt_gae_rows=1000, bootstrap_rows=3000, montecarlo_rows=3000, truncated_ends=300, terminal_ends=300,
            open_ends=100, single_rows=20, inputs_unmodified=300, a2c_blocks=10, a2c_truncated_blocks=5)


class Value:
    """A fixed value function of the first state component, evaluated on batches or single states."""

    def __init__(self, rng, flat, dtype):
        self.w = rng.randn(3)
        self.flat, self.dtype = flat, dtype

    def np(self, s):
        s = np.asarray(s, dtype=np.float64)
        return self.w[0] * s[..., 0] + self.w[1] * np.sin(3 * s[..., 1]) + self.w[2]

    def __call__(self, s, *rest):
        x = np.asarray(s)
        if rest:            # sequences: the value of the last valid element of each
            n = np.asarray(rest[-1])
            x = np.stack([x[i, n[i] - 1] for i in range(len(x))])
        v = torch.tensor(self.np(x), dtype=self.dtype)
        return v if self.flat else v.unsqueeze(-1)


def trajectory(rng, n, p_last, p_abs, closed):
    ab, last = np.zeros(n, dtype=bool), np.zeros(n, dtype=bool)
    for i in range(n):
        if rng.rand() < p_last:
            last[i] = True
            ab[i] = rng.rand() < p_abs
    if closed == 'terminal':
        last[-1] = ab[-1] = True
    elif closed == 'truncated':
        last[-1], ab[-1] = True, False
    elif closed == 'open':
        last[-1] = ab[-1] = False
    s = rng.randn(n + 1, 2)
    ss = rng.randn(n, 2)
    for i in range(n - 1):
        if not last[i]:
            ss[i] = s[i + 1]
    if rng.rand() < .1:                             # the definition takes the next states as given
        ss = rng.randn(n, 2)
    r = rng.randn(n) * float(rng.choice([1., 20.]))
    k = rng.randint(5)
    if k == 0:                                      # sparse, absent, constant or whole-numbered rewards
        r *= rng.rand(n) < .3
    elif k == 1:
        r = np.full(n, float(rng.choice([0., 1., -1.])))
    elif k == 2:
        r = np.round(r)
    return s[:n], ss, r, ab, last


def ends(m, ab, last):
    m.event('terminal_ends', int(ab.sum()))
    m.event('truncated_ends', int((last & ~ab).sum()))
    m.event('open_ends', int(not last[-1]))
    m.event('single_rows', int(len(ab) == 1))


def gae_ref(v, vn, r, ab, last, gamma, lam):
    n = len(r)
    d = r + gamma * vn * (1 - ab) - v
    out = np.zeros(n)
    for k in range(n):
        j, c = k, 1.
        while True:
            out[k] += c * d[j]
            if last[j] or j == n - 1:
                break
            j, c = j + 1, c * gamma * lam
    return out


def near(m, got, want, key, msg, shape=None):
    got = np.asarray(got.detach() if torch.is_tensor(got) else got, dtype=np.float64)
    m.eq(got.size, want.size, key + '-size', msg)
    m.close(got.ravel(), want, key, msg, rtol=3e-5, atol=3e-5 * (1 + np.abs(want).max()))


def estimators(m, rng, n, p_last, p_abs, closed, gamma, lam, flat, double):
    s, ss, r, ab, last = trajectory(rng, n, p_last, p_abs, closed)
    dt = torch.float64 if double else torch.float32
    V = Value(rng, flat, dt)
    ten = [torch.tensor(s, dtype=dt), torch.tensor(ss, dtype=dt), torch.tensor(r, dtype=dt), torch.tensor(ab), torch.tensor(last)]
    keep = [t.clone() for t in ten]
    S, SS, R, AB, LA = ten
    v, vn = V.np(s), V.np(ss)
    ends(m, ab, last)

    tgt, adv = compute_gae(V, S, SS, R, AB, LA, gamma, lam)
    want = gae_ref(v, vn, r, ab, last, gamma, lam)
    near(m, adv, want, 'gae-advantage', f'n={n} gamma={gamma} lambda={lam}')
    near(m, tgt, want + v, 'gae-target', f'n={n} gamma={gamma} lambda={lam}')
    m.event('gae_rows', n)

    tgt, adv = compute_advantage(V, S, SS, R, AB, gamma)
    q = r + gamma * vn * (1 - ab)
    near(m, tgt, q, 'bootstrap-target', f'n={n} gamma={gamma}')
    near(m, adv, q - v, 'bootstrap-advantage', f'n={n} gamma={gamma}')
    m.event('bootstrap_rows', n)

    if not (last & ~ab)[:-1].any():     # the Monte-Carlo estimator is given terminal flags only: one continuing trajectory
        tgt, adv = compute_advantage_montecarlo(V, S, SS, R, AB, gamma)
        q = mc_ref(r, ab, ab, vn, gamma)
        near(m, tgt, q, 'montecarlo-target', f'n={n} gamma={gamma}')
        near(m, adv, q - v, 'montecarlo-advantage', f'n={n} gamma={gamma}')
        m.event('montecarlo_rows', n)
    for a, b in zip(ten, keep):
        m.ok(torch.equal(a, b), 'input-modified')
    m.event('inputs_unmodified')
    m.seen(n if n < 6 else 9, closed, gamma, lam, flat, bool(ab.any()), bool((last & ~ab).any()))


def mc_ref(r, ab, cut, vn, gamma):
    """Discounted rewards up to the end of the trajectory (cut) or of the data, plus the value reached unless terminal."""
    n = len(r)
    out = np.zeros(n)
    for k in range(n):
        j, c = k, 1.
        while True:
            out[k] += c * r[j]
            c *= gamma
            if ab[j]:
                break
            if cut[j] or j == n - 1:
                out[k] += c * vn[j]
                break
            j += 1
    return out


def bptt(m, rng, n, p_last, p_abs, closed, gamma, lam, T):
    """The recurrent estimator: the value of a sequence is the value of its last element."""
    s, ss, r, ab, last = trajectory(rng, n, p_last, p_abs, closed)
    V = Value(rng, False, torch.float32)
    ln = rng.randint(1, T + 1, size=n)
    S, SS = rng.randn(n, T, 2), rng.randn(n, T, 2)
    for i in range(n):
        S[i, ln[i] - 1], SS[i, ln[i] - 1] = s[i], ss[i]
    f = lambda x: torch.tensor(x, dtype=torch.float32)
    h = torch.zeros(n, 1)
    tgt, adv = PPO_BPTT.compute_gae(V, f(S), h, f(SS), h, torch.tensor(ln), f(r), torch.tensor(ab), torch.tensor(last), gamma, lam)
    want = gae_ref(V.np(s), V.np(ss), r, ab, last, gamma, lam)
    near(m, adv, want, 'recurrent-gae-advantage', f'n={n} gamma={gamma} lambda={lam}')
    near(m, tgt, want + V.np(s), 'recurrent-gae-target', f'n={n}')
    m.event('bptt_gae_rows', n)
    ends(m, ab, last)


def a2c(m, rng, n, p_last, p_abs, closed):
    """The advantage actor-critic: regression targets of its value function on blocks holding several episodes."""
    seed_all(int(rng.randint(2 ** 31)))
    ag, env, kw = build('a2c', {})
    s, ss, r, ab, last = trajectory(rng, n, p_last, p_abs, closed)
    a = rng.randn(n, 1)
    f = lambda x: torch.tensor(x, dtype=torch.float32)
    ds = Dataset.from_array(f(s), f(a), f(r), f(ss), torch.tensor(ab), torch.tensor(last), gamma=env.info.gamma, backend='torch')
    regs = [x for x in vars(ag).values() if isinstance(x, Regressor)]
    m.eq(len(regs), 1, 'a2c-value-function')
    V = regs[0]
    v, vn = [np.asarray(V.predict(f(x)).detach(), dtype=float).ravel() for x in (s, ss)]
    calls = []
    real = V.fit

    def fit(*z, **k):
        calls.append(np.asarray(z[-1].detach() if torch.is_tensor(z[-1]) else z[-1], dtype=float).ravel().copy())
        return real(*z, **k)
    V.fit = fit
    ag.fit(ds)
    m.ok(len(calls) >= 1, 'a2c-value-not-fitted')
    g = env.info.gamma
    want, leak = mc_ref(r, ab, last, vn, g), mc_ref(r, ab, ab, vn, g)
    got = calls[0]
    m.event('a2c_blocks')
    inner = (last & ~ab)[:-1].any()
    m.eq(len(got), n, 'a2c-target-size')
    m.seen('a2c', closed, bool(inner), bool(ab.any()))
    if inner:
        m.event('a2c_truncated_blocks')
    tol = 1e-4 * (1 + np.abs(want).max() + np.abs(leak).max())
    if np.abs(got - want).max() > tol:
        m.ok(False, 'a2c-leaks-across-truncated-episodes' if inner and
             np.abs(got - leak).max() <= tol else 'a2c-target', f'n={n} {closed}: {got[:3]} expected {want[:3]}')


def cases(tier, rng):
    N = 1 if tier == 'quick' else 12
    for i in range(700 * N):
        n = int(rng.choice([1, 2, 3, int(rng.randint(4, 60))]))
        yield estimators, dict(n=n, p_last=float(rng.choice([0., .1, .3])), p_abs=float(rng.choice([0., .5, 1., 1.])),
                               closed=str(rng.choice(['terminal', 'truncated', 'open'])), gamma=float(rng.choice([0., .5, .9, .99, 1.])),
                               lam=float(rng.choice([0., .5, .95, 1.])), flat=bool(rng.rand() < .2), double=bool(rng.rand() < .3))
    for i in range(4 * N):
        yield estimators, dict(n=int(rng.randint(2000, 7000)), p_last=float(rng.choice([0., .001])), p_abs=.5,
                               closed=str(rng.choice(['terminal', 'truncated', 'open'])), gamma=float(rng.choice([.9, .99, 1.])),
                               lam=float(rng.choice([.5, .95, 1.])), flat=False, double=True)
    for i in range(120 * N):
        yield bptt, dict(n=int(rng.randint(1, 30)), p_last=float(rng.choice([0., .2])), p_abs=float(rng.choice([0., .5, 1.])),
                         closed=str(rng.choice(['terminal', 'truncated', 'open'])), gamma=float(rng.choice([.5, .99])),
                         lam=float(rng.choice([0., .7, 1.])), T=int(rng.randint(1, 5)))
    for i in range(50 * N):
        yield a2c, dict(n=int(rng.randint(1 if i % 10 == 0 else 2, 20)), p_last=float(rng.choice([0., .2, .4])), p_abs=float(rng.choice([0., .5, 1., 1.])),
                        closed=str(rng.choice(['terminal', 'truncated', 'open'])))
