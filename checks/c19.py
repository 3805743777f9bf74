"""C19: continuous (and torch) policies."""
import numpy as np
import torch
import torch.nn as nn
from scipy.stats import binom, kstest, norm
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator, TorchApproximator
from mushroom_rl.features import Features
from mushroom_rl.features.basis import PolynomialBasis
from mushroom_rl.policy import (GaussianPolicy, DiagonalGaussianPolicy, StateStdGaussianPolicy, StateLogStdGaussianPolicy,
                                GaussianTorchPolicy, BoltzmannTorchPolicy, OrnsteinUhlenbeckPolicy, ClippedGaussianPolicy,
                                DeterministicPolicy, RecurrentGaussianTorchPolicy)
from mushroom_rl.algorithms.actor_critic.deep_actor_critic.sac import SACPolicy
from mushroom_rl.rl_utils.parameters import Parameter

PROPERTY = 'C19'
RULE = ('policies of every kind with random shapes, parameters (tiny to huge spreads, correlated covariances, saturated squashing, '
        'polynomial features) and states; densities, entropies and score gradients are compared with an independent double precision '
        'implementation differentiated automatically, draws are whitened with the stated moments and tested, parameters are set, '
        'read back and changed repeatedly')
NEED = dict(densities=1500, score_gradients=800, density_gradients=300, drawn=200000, draw_tests=200, round_trips=150, entropies=60, limits=20000,
            clipped_at_limit=500, squashed_log_probs=1500, ou_steps=5000, ou_resets=20, deterministic=200, categorical_probs=500)
P_FALSE = 1e-10
D = torch.float64


def seed(rng):
    s = int(rng.randint(2 ** 31))
    np.random.seed(s)
    torch.manual_seed(s)


def logpdf(a, mu, cov):
    k = a.shape[-1]
    L = torch.linalg.cholesky(cov)
    z = torch.linalg.solve_triangular(L, (a - mu)[..., None], upper=False)[..., 0]
    return -.5 * (z ** 2).sum(-1) - torch.log(torch.diagonal(L)).sum() - .5 * k * np.log(2 * np.pi)


def spd(rng, k, scale=1.):
    A = rng.randn(k, k)
    return (A @ A.T / k + .15 * np.eye(k)) * scale


def whitened(m, z, key, msg):
    """z: (n, k) values that must be independent standard normal."""
    z = np.asarray(z, dtype=float)
    n, k = z.shape
    m.event('drawn', n)
    m.ok(np.isfinite(z).all(), key, f'{msg}: not finite')
    for i in range(k):
        p = kstest(z[:, i], 'norm').pvalue
        m.ok(p > P_FALSE, key, f'{msg}: component {i} mean {z[:, i].mean():.3f} std {z[:, i].std():.3f} of the whitened draws, p {p:.2g}')
        m.ok(abs((z[1:, i] * z[:-1, i]).sum()) / np.sqrt(n - 1) < 8, key + '-dependent', f'{msg}: successive draws correlated')
        for j in range(i):
            m.ok(abs((z[:, i] * z[:, j]).sum()) / np.sqrt(n) < 8, key + '-correlation', f'{msg}: components {i} {j}')
    m.event('draw_tests')


class Model:
    """A linear regressor with optional polynomial features and its own double precision twin."""

    def __init__(self, rng, d, k, poly, scale=1.):
        self.d, self.k = d, k
        self.basis = None
        phi = None
        if poly:
            self.basis = [b for b in PolynomialBasis.generate(2, d)]
            phi = Features(basis_list=self.basis)
        self.f = len(self.basis) if poly else d
        self.app = Regressor(LinearApproximator, input_shape=(self.f,), output_shape=(k,), phi=phi)
        self.w0 = rng.randn(self.f * k) * scale

    def feats(self, s):
        if self.basis is None:
            return np.asarray(s, dtype=float)
        return np.array([b(s) for b in self.basis])

    def out(self, w, s):
        return w.reshape(self.k, self.f) @ torch.as_tensor(self.feats(s), dtype=D)


def gaussians(m, rng, kind, d, k, poly, n_states, n_draw):
    seed(rng)
    mu = Model(rng, d, k, poly)
    eps = 10. ** rng.randint(-8, 0)
    state = {}
    if kind == 'fixed':
        state['cov'] = spd(rng, k, 10. ** rng.uniform(-3, 2))
        pol = GaussianPolicy(mu.app, state['cov'].copy())
        size = len(mu.w0)
    elif kind == 'diagonal':
        pol = DiagonalGaussianPolicy(mu.app, np.ones(k))
        size = len(mu.w0) + k
    else:
        sd = Model(rng, d, k, poly and rng.rand() < .5)
        pol = StateStdGaussianPolicy(mu.app, sd.app, eps) if kind == 'state-std' else StateLogStdGaussianPolicy(mu.app, sd.app)
        size = len(mu.w0) + len(sd.w0)

    def moments(w, s):
        """Mean and covariance stated for weights w in state s (differentiable)."""
        if kind == 'fixed':
            return mu.out(w, s), torch.as_tensor(state['cov'])
        wm, wr = w[:len(mu.w0)], w[len(mu.w0):]
        if kind == 'diagonal':
            return mu.out(wm, s), torch.diag(wr ** 2)
        x = sd.out(wr, s)
        return mu.out(wm, s), torch.diag(x ** 2 + eps) if kind == 'state-std' else torch.diag(torch.exp(2 * x))

    def fresh():
        w = rng.randn(size) * rng.choice([.3, 1., 2.])
        if kind == 'diagonal':
            w[-k:] = np.exp(rng.randn(k)) * rng.choice([-1, 1, 1], k)      # only the square of the deviation matters
        elif kind == 'state-log-std':
            w[len(mu.w0):] *= .2
        return w
    m.eq(pol.weights_size, size, 'weights-size', kind)
    for it in range(n_states):
        w = fresh()
        given = w.copy()
        if it % 3 == 2 and kind == 'fixed':
            state['cov'] = spd(rng, k, 10. ** rng.uniform(-3, 2))
            pol.set_sigma(state['cov'].copy())
            m.event('round_trips')
        pol.set_weights(given)
        if it % 3 == 2 and kind == 'diagonal':
            w[-k:] = np.exp(rng.randn(k))
            pol.set_std(w[-k:].copy())
        m.eq(np.asarray(pol.get_weights()).shape, (size,), 'weights-shape', kind)
        m.close(pol.get_weights(), w, 'weights-round-trip', kind, rtol=0, atol=0)
        m.event('round_trips')
        s = rng.randn(d) * rng.choice([.5, 1., 2.])
        with torch.no_grad():
            mean, cov = moments(torch.as_tensor(w), s)
            while np.linalg.cond(cov.numpy()) > 1e8:        # numerically singular covariances are outside the claim
                s = s * .7
                mean, cov = moments(torch.as_tensor(w), s)
        L = np.linalg.cholesky(cov.numpy())
        for j in range(4):
            a = mean.numpy() + L @ rng.randn(k) * rng.choice([.3, 1., 3.])
            wt = torch.tensor(w, requires_grad=True)
            lp = logpdf(torch.as_tensor(a), *moments(wt, s))
            want = float(torch.exp(lp))
            got = np.asarray(pol(s, a), dtype=float)
            m.eq(got.size, 1, 'density-size', kind)
            m.close(got.ravel()[0], want, 'density', f'{kind} d {d} k {k}', rtol=1e-6, atol=1e-300)
            m.event('densities')
            g = torch.autograd.grad(lp, wt)[0].numpy()
            dl = np.asarray(pol.diff_log(s, a))
            m.eq(dl.shape, (size,), 'score-shape', f'{kind} d {d} k {k}')
            m.close(dl, g, 'score-gradient', f'{kind} d {d} k {k}', rtol=1e-6, atol=1e-7 * (1 + np.abs(g).max()))
            m.event('score_gradients')
            df = np.asarray(pol.diff(s, a))
            m.close(df, g * want, 'density-gradient', f'{kind} d {d} k {k}', rtol=1e-6, atol=1e-7 * np.abs(g * want).max() + 1e-300)
            m.event('density_gradients')
            m.close(pol.get_weights(), w, 'weights-changed-by-query', kind, rtol=0, atol=0)
        if it < 2:
            x = np.array([pol.draw_action(s, None)[0] for _ in range(n_draw)])
            m.eq(x.shape, (n_draw, k), 'action-shape', kind)
            whitened(m, np.linalg.solve(L, (x - mean.numpy()).T).T, 'draws', f'{kind} d {d} k {k}')
        m.seen(kind, d, k, poly, it, float(w[0]))


class Net(nn.Module):
    def __init__(self, input_shape, output_shape, width=5, scale=1., **kw):
        super().__init__()
        self.a = nn.Linear(input_shape[-1], width)
        self.b = nn.Linear(width, output_shape[0])
        with torch.no_grad():
            self.b.weight *= scale

    def forward(self, state, **kw):
        return self.b(torch.tanh(self.a(state.float())))


def mlp(w, s, d, k, width=5):
    """Twin of Net as a function of the flat vector of weights."""
    i, out = 0, []
    for shape in ((width, d), (width,), (k, width), (k,)):
        n = int(np.prod(shape))
        out.append(w[i:i + n].reshape(shape))
        i += n
    return torch.tanh(s @ out[0].T + out[1]) @ out[2].T + out[3]


def n_w(d, k, width=5):
    return width * d + width + k * width + k


def flat_grad(y, params):
    g = torch.autograd.grad(y, params, allow_unused=True)
    return torch.cat([(torch.zeros_like(p) if x is None else x).reshape(-1) for p, x in zip(params, g)]).double()


def torch_gaussian(m, rng, d, k, std0, n_states, n_draw):
    seed(rng)
    pol = GaussianTorchPolicy(Net, (d,), (k,), std_0=std0)
    w = pol.get_weights().double()
    m.eq(tuple(w.shape), (n_w(d, k) + k,), 'weights-shape', 'torch gaussian')
    m.close(torch.exp(w[-k:]), torch.full((k,), std0, dtype=D), 'initial-std', f'{std0}', rtol=1e-5, atol=0)
    for it in range(n_states):
        if it:
            new = torch.as_tensor(rng.randn(len(w)) * .7, dtype=torch.float32)
            new[-k:] += float(rng.choice([0, 0, 4, 8]))
            given = new.clone()
            pol.set_weights(given)
            m.ok(torch.equal(pol.get_weights(), new), 'weights-round-trip', 'torch gaussian')
            w = new.double()
            m.event('round_trips')
        N = int(rng.choice([1, 2, 7]))
        s = torch.as_tensor(rng.randn(N, d), dtype=torch.float32)
        wt = w.clone().requires_grad_(True)
        mean = mlp(wt[:-k], s.double(), d, k)
        cov = torch.diag(torch.exp(2 * wt[-k:]))
        a = (mean + torch.exp(wt[-k:]) * torch.as_tensor(rng.randn(N, k) * rng.choice([.3, 1., 3.]))).detach().float()
        lp = logpdf(a.double(), mean, cov)
        got = pol.log_prob_t(s, a)
        m.eq(tuple(got.shape), (N, 1), 'log-prob-shape', 'torch gaussian')
        m.close(got[:, 0].detach(), lp.detach(), 'log-prob', f'torch gaussian {d} {k}', rtol=1e-4, atol=1e-4)
        m.close(pol(s, a).detach().reshape(-1), torch.exp(lp.detach()), 'density', f'torch gaussian {d} {k}', rtol=1e-3, atol=1e-30)
        m.close(pol(s[0], a[0]).detach().reshape(-1), torch.exp(lp.detach())[:1], 'density-single', f'torch gaussian {d} {k}', rtol=1e-3, atol=1e-30)
        m.event('densities', 2 * N)
        params = list(pol.parameters())
        c = torch.as_tensor(rng.randn(N))
        g = flat_grad((got[:, 0] * c.float()).sum(), params)
        want = torch.autograd.grad((lp * c).sum(), wt)[0]
        m.close(g, want, 'score-gradient', 'torch gaussian', rtol=1e-3, atol=1e-4 * (1 + float(want.abs().max())))
        m.event('score_gradients')
        ent = .5 * k * np.log(2 * np.pi * np.e) + float(w[-k:].sum())
        m.close(float(pol.entropy()), ent, 'entropy', f'torch gaussian {k}', rtol=1e-5, atol=1e-5)
        m.close(float(pol.entropy(s)), ent, 'entropy', f'torch gaussian {k}', rtol=1e-5, atol=1e-5)
        ge = flat_grad(pol.entropy_t(s), params)
        m.close(ge[-k:], np.ones(k), 'entropy-gradient', 'torch gaussian', rtol=1e-5, atol=1e-6)
        m.event('entropies')
        dist = pol.distribution(s)
        m.close(dist.mean.detach(), mean.detach(), 'distribution-mean', 'torch gaussian', rtol=1e-4, atol=1e-4)
        m.close(dist.stddev.detach(), torch.exp(w[-k:]).expand(N, k), 'distribution-std', 'torch gaussian', rtol=1e-4, atol=1e-6)
        L = np.exp(w[-k:].numpy())
        if it < 2:
            big = s[:1].expand(n_draw, d)
            x = pol.draw_action_t(big)
            m.eq(tuple(x.shape), (n_draw, k), 'action-shape', 'torch gaussian')
            whitened(m, (x.double().numpy() - mean[0].detach().numpy()) / L, 'draws', f'torch gaussian {d} {k}')
            x = torch.stack([pol.draw_action(s[0])[0] for _ in range(400)])
            m.eq(tuple(x.shape), (400, k), 'action-shape', 'torch gaussian single')
            whitened(m, (x.double().numpy() - mean[0].detach().numpy()) / L, 'draws', f'torch gaussian {d} {k} single')
            m.ok(not x.requires_grad, 'action-keeps-graph')
        m.seen('torch-gaussian', d, k, N, std0, it)


def torch_boltzmann(m, rng, d, k, beta, n_states, n_draw):
    seed(rng)
    pol = BoltzmannTorchPolicy(Net, (d,), (k,), beta=Parameter(beta) if rng.rand() < .5 else beta)
    w = pol.get_weights().double()
    m.eq(tuple(w.shape), (n_w(d, k),), 'weights-shape', 'torch boltzmann')
    for it in range(n_states):
        if it:
            new = torch.as_tensor(rng.randn(len(w)), dtype=torch.float32)
            pol.set_weights(new.clone())
            m.ok(torch.equal(pol.get_weights(), new), 'weights-round-trip', 'torch boltzmann')
            w = new.double()
            m.event('round_trips')
        if it == n_states - 1:
            beta = beta * 2.5
            pol.set_beta(Parameter(beta))
        N = int(rng.choice([1, 2, 7]))
        s = torch.as_tensor(rng.randn(N, d), dtype=torch.float32)
        wt = w.clone().requires_grad_(True)
        lp = torch.log_softmax(beta * mlp(wt, s.double(), d, k), dim=1)
        for a in range(k):
            got = pol.log_prob_t(s, torch.full((N, 1), a))
            m.eq(tuple(got.shape), (N, 1), 'log-prob-shape', 'torch boltzmann')
            m.close(got[:, 0].detach(), lp[:, a].detach(), 'log-prob', f'torch boltzmann beta {beta}', rtol=1e-3, atol=1e-3)
            m.close(pol(s[0], torch.tensor([a])).detach().reshape(-1), torch.exp(lp[:1, a]).detach(), 'density', 'torch boltzmann', rtol=1e-3, atol=1e-5)
            m.event('categorical_probs', N)
        acts = torch.as_tensor(rng.randint(0, k, (N, 1)))
        got = pol.log_prob_t(s, acts)
        want = lp.gather(1, acts)
        m.close(got.detach(), want.detach(), 'log-prob', f'torch boltzmann beta {beta}', rtol=1e-3, atol=1e-3)
        c = torch.as_tensor(rng.randn(N, 1))
        g = flat_grad((got * c.float()).sum(), list(pol.parameters()))
        g0 = torch.autograd.grad((want * c).sum(), wt, retain_graph=True)[0]
        m.close(g, g0, 'score-gradient', 'torch boltzmann', rtol=1e-3, atol=1e-3 * (1 + float(g0.abs().max())))
        m.event('score_gradients')
        ent = -(torch.exp(lp) * lp).sum(1).mean()
        m.close(float(pol.entropy(s)), float(ent), 'entropy', f'torch boltzmann beta {beta}', rtol=1e-3, atol=1e-4)
        m.event('entropies')
        if it < 2:
            p = torch.exp(lp[0]).detach().numpy()
            x = pol.draw_action_t(s[:1].expand(n_draw, d)).reshape(-1).numpy()
            y = np.array([pol.draw_action(s[0])[0].numpy() for _ in range(300)])
            m.eq(y.shape, (300, 1), 'action-shape', 'torch boltzmann')
            for z in (x, y.ravel()):
                m.ok(((z >= 0) & (z < k) & (z == np.round(z))).all(), 'invalid-action')
                for a in range(k):
                    cnt, q = int((z == a).sum()), float(np.clip(p[a], 0, 1))
                    # probabilities below float precision are widened
                    pv = min(binom.cdf(cnt, len(z), max(q - 1e-6, 0)) if cnt < q * len(z) else 1, binom.sf(cnt - 1, len(z), min(q + 1e-6, 1)) if cnt > q * len(z) else 1)
                    m.ok(pv > P_FALSE, 'draws', f'torch boltzmann: action {a} {cnt} of {len(z)} probability {q}')
                m.event('drawn', len(z))
                m.event('draw_tests')
        m.seen('torch-boltzmann', d, k, N, beta, it)


class RNN(nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.i = nn.Linear(input_shape[-1], 3)
        self.h = nn.Linear(3, 3)
        self.o = nn.Linear(3, output_shape[0])

    def forward(self, state, policy_state, lengths, **kw):
        h = policy_state.reshape(state.shape[0], 3).to(state.dtype)
        hs = []
        for t in range(state.shape[1]):
            h = torch.tanh(self.i(state[:, t]) + self.h(h))
            hs.append(h)
        last = torch.stack(hs, 1)[torch.arange(state.shape[0]), torch.as_tensor(lengths).long() - 1]
        return self.o(last), last


def recurrent(m, rng, d, k, std0, lo, hi, n_states, n_draw):
    seed(rng)
    pol = RecurrentGaussianTorchPolicy(policy_state_shape=(3,), network=RNN, input_shape=(d,), output_shape=(k,), std_0=std0,
                                       log_std_min=lo, log_std_max=hi)
    m.ok(torch.equal(torch.as_tensor(pol.reset()), torch.zeros(3)), 'recurrent-reset')
    for it in range(n_states):
        w = pol.get_weights()
        if it:
            w = torch.as_tensor(rng.randn(len(w)) * .8, dtype=torch.float32)
            pol.set_weights(w.clone())
            m.ok(torch.equal(pol.get_weights(), w), 'weights-round-trip', 'recurrent')
            m.event('round_trips')
        ws, i = [], 0
        for shape in ((3, d), (3,), (3, 3), (3,), (k, 3), (k,)):
            n = int(np.prod(shape))
            ws.append(w[i:i + n].double().reshape(shape))
            i += n
        ls = torch.clamp(w[-k:].double(), lo, hi)
        N, T = int(rng.choice([1, 2, 5])), int(rng.randint(1, 5))
        s = torch.as_tensor(rng.randn(N, T, d), dtype=torch.float32)
        h = torch.as_tensor(rng.randn(N, 3), dtype=torch.float32)
        ln = torch.as_tensor(rng.randint(1, T + 1, N))
        mean = torch.zeros(N, k, dtype=D)
        last = torch.zeros(N, 3, dtype=D)
        for r in range(N):
            x = h[r].double()
            for t in range(int(ln[r])):
                x = torch.tanh(s[r, t].double() @ ws[0].T + ws[1] + x @ ws[2].T + ws[3])
            mean[r], last[r] = x @ ws[4].T + ws[5], x
        a = (mean + torch.exp(ls) * torch.as_tensor(rng.randn(N, k))).float()
        lp = logpdf(a.double(), mean, torch.diag(torch.exp(2 * ls)))
        got = pol.log_prob_t(s, a, h, ln)
        m.eq(tuple(got.shape), (N, 1), 'log-prob-shape', 'recurrent')
        m.close(got[:, 0].detach(), lp, 'log-prob', f'recurrent {N} {T}', rtol=1e-3, atol=1e-3)
        m.event('densities', N)
        H = float(ls.sum() + .5 * k * np.log(2 * np.pi * np.e))
        m.close(float(pol.entropy(s)), H, 'entropy', f'recurrent, bounds {lo} {hi}', rtol=1e-4, atol=1e-4)
        m.close(float(torch.mean(pol.distribution(s, h, ln).entropy())), H, 'entropy', 'recurrent distribution', rtol=1e-4, atol=1e-4)
        m.event('entropies')
        s0, h0 = s[0, 0], h[0]
        x = torch.tanh(s0.double() @ ws[0].T + ws[1] + h0.double() @ ws[2].T + ws[3])
        mu = x @ ws[4].T + ws[5]
        acts = []
        for _ in range(n_draw):
            act, nh = pol.draw_action(s0, h0)
            acts.append(act.reshape(-1))
        m.close(nh.reshape(-1), x, 'recurrent-next-state', '', rtol=1e-4, atol=1e-4)
        whitened(m, (torch.stack(acts).double() - mu) / torch.exp(ls), 'draws', 'recurrent')
        m.seen('recurrent', d, k, N, T, it, lo)


def sac(m, rng, d, k, scale, lo, hi, n_states, n_draw):
    seed(rng)
    kw = dict(network=Net, input_shape=(d,), output_shape=(k,))
    mu, sg = Regressor(TorchApproximator, scale=scale, **kw), Regressor(TorchApproximator, **kw)
    low = (rng.randn(k) * 3).astype(np.float64)
    high = low + 10. ** rng.uniform(-1, 2, k)
    pol = SACPolicy(mu, sg, low, high, lo if rng.rand() < .5 else Parameter(lo), hi)
    n = n_w(d, k)
    c, dl = (low + high) / 2, (high - low) / 2
    for it in range(n_states):
        if it:
            w = rng.randn(2 * n).astype(np.float32) * (scale if it == 1 else 1.)
            wt = torch.as_tensor(w.copy())
            pol.set_weights(wt)
            m.ok(np.array_equal(np.asarray(pol.get_weights()), w), 'weights-round-trip', 'squashed')
            m.event('round_trips')
        w = torch.as_tensor(np.asarray(pol.get_weights())).double()
        m.eq(len(w), 2 * n, 'weights-shape', 'squashed')
        s = torch.as_tensor(rng.randn(6, d), dtype=torch.float32)
        mean = mlp(w[:n], s.double(), d, k)
        raw = mlp(w[n:], s.double(), d, k)
        std = torch.exp(torch.clamp(raw, lo, hi))
        dist = pol.distribution(s)
        m.close(dist.mean.detach(), mean, 'squashed-mean', '', rtol=1e-4, atol=1e-3 * float(1 + mean.abs().max()))
        m.close(dist.stddev.detach(), std, 'squashed-std', '', rtol=1e-3, atol=1e-9)
        rep = s[:1].expand(n_draw, d)
        a, lp = pol.compute_action_and_log_prob(rep)
        b = pol.draw_action(rep)[0]
        one = torch.stack([pol.draw_action(s[0])[0] for _ in range(200)])
        m.eq(tuple(one.shape), (200, k), 'action-shape', 'squashed')
        for x in (a, b, one):
            x = x.double().numpy()
            tol = 1e-5 * (np.abs(low) + np.abs(high))
            m.ok((x >= low - tol).all() and (x <= high + tol).all(), 'squashed-action-out-of-range', f'{x.min(0)} {x.max(0)} {low} {high}')
            m.event('limits', len(x))
            y = (x - c) / dl
            # P(action <= t) with t inside the range
            for i in range(k):
                for t in (-.9, -.5, 0., .3, .8):
                    p = float(norm.cdf((np.arctanh(t) - float(mean[0, i])) / float(std[0, i])))
                    cnt = int((y[:, i] <= t).sum())
                    near = .02 + 1e-3 * abs(float(mean[0, i])) / float(std[0, i])
                    up = float(norm.cdf((np.arctanh(t) + 1e-4 - float(mean[0, i])) / float(std[0, i]) + 1e-3))
                    dn = float(norm.cdf((np.arctanh(t) - 1e-4 - float(mean[0, i])) / float(std[0, i]) - 1e-3))
                    ok = binom.sf(cnt - 1, len(y), min(up, 1)) > P_FALSE and binom.cdf(cnt, len(y), max(dn, 0)) > P_FALSE
                    m.ok(ok, 'squashed-draws', f'component {i}: {cnt} of {len(y)} below {t}, probability {p}')
            m.event('drawn', len(y))
            m.event('draw_tests')
        y = (a.double().numpy() - c) / dl
        m.eq(tuple(lp.shape), (n_draw,), 'squashed-log-prob-shape')
        inside = (np.abs(y) < .99).all(1)
        u = np.arctanh(np.clip(y, -.999, .999))
        want = (norm.logpdf(u, mean[0].numpy(), std[0].numpy()) - np.log(1 - np.clip(y, -.999, .999) ** 2)).sum(1)
        # float32 action: relative error of u about 1e-7 / (1 - y^2) / (dl / |c|)
        err = (1e-6 * (1 + np.abs(c) / dl) / (1 - np.clip(y, -.999, .999) ** 2) / std[0].numpy()).max(1) + 1e-6
        z = np.abs((u - mean[0].numpy()) / std[0].numpy()).max(1)
        good = inside & (err * (1 + z) < 1e-2)
        if good.any():
            m.close(lp.double().numpy()[good], want[good], 'squashed-log-prob', f'scale {scale}', rtol=1e-3, atol=5e-2)
            m.close(np.median(lp.double().numpy()[good] - want[good]), 0., 'squashed-log-prob-offset', f'scale {scale}', rtol=0, atol=3e-3)
        m.event('squashed_log_probs', int(good.sum()))
        # entropy: average of - log probability (sampled), compared with the mean over the recorded samples
        ents = [float(pol.entropy(rep)) for _ in range(2)]
        m.close(ents[0], -float(lp.mean()), 'squashed-entropy', f'{float(lp.std())}', rtol=0, atol=9 * float(lp.double().std()) * np.sqrt(2 / n_draw) + 1e-2)
        m.event('entropies')
        # reparametrisation gradient reaches mean and spread
        at, lt = pol.compute_action_and_log_prob_t(s)
        gr = torch.autograd.grad(at.sum(), list(pol.parameters()), allow_unused=True)
        m.ok(any(g is not None and g.abs().sum() > 0 for g in gr[:4]) or not good.any(), 'squashed-gradient-missing')
        m.seen('squashed', d, k, scale, lo, it)


def ou(m, rng, d, k, theta, dt, x0, T):
    seed(rng)
    net = Regressor(TorchApproximator, network=Net, input_shape=(d,), output_shape=(k,))
    sigma = torch.as_tensor(np.exp(rng.randn(k)), dtype=torch.float32)
    start = torch.as_tensor(rng.randn(k), dtype=torch.float32) if x0 else None
    pol = OrnsteinUhlenbeckPolicy(net, sigma, theta, dt, x0=None if start is None else start.clone())
    m.eq(tuple(pol.policy_state_shape), (k,), 'ou-state-shape')
    z = []
    w = pol.get_weights().double()
    for e in range(3):
        x = pol.reset()
        m.close(x, start if x0 else torch.zeros(k), 'ou-reset', f'episode {e}', rtol=0, atol=0)
        m.event('ou_resets')
        for t in range(T):
            s = torch.as_tensor(rng.randn(d), dtype=torch.float32)
            before = x.clone()
            a, nx = pol.draw_action(s, x)
            m.ok(torch.equal(before, x), 'ou-state-modified')
            mu = mlp(w, s.double(), d, k)
            m.close(a.double() - nx.double(), mu, 'ou-action', '', rtol=1e-4, atol=1e-4 * (1 + float(nx.abs().max())))
            z.append(((nx.double() - x.double() + theta * x.double() * dt) / (sigma.double() * np.sqrt(dt))).numpy())
            x = nx
            m.event('ou_steps')
    whitened(m, np.array(z), 'ou-noise', f'theta {theta} dt {dt}')
    w2 = torch.as_tensor(rng.randn(len(w)), dtype=torch.float32)
    pol.set_weights(w2.clone())
    m.ok(torch.equal(torch.as_tensor(pol.get_weights()), w2), 'weights-round-trip', 'ou')
    m.eq(pol.weights_size, len(w), 'weights-size', 'ou')
    s = torch.as_tensor(rng.randn(d), dtype=torch.float32)
    a, nx = pol.draw_action(s, x)
    m.close(a.double() - nx.double(), mlp(w2.double(), s.double(), d, k), 'ou-action', 'after set_weights', rtol=1e-4, atol=1e-3 * (1 + float(nx.abs().max())))
    m.event('round_trips')
    m.seen('ou', d, k, theta, dt, x0)


def clipped(m, rng, d, k, width, n_draw):
    seed(rng)
    net = Regressor(TorchApproximator, network=Net, input_shape=(d,), output_shape=(k,))
    cov = spd(rng, k)
    low = -rng.rand(k) * width - .05
    high = rng.rand(k) * width + .05
    pol = ClippedGaussianPolicy(net, torch.as_tensor(cov, dtype=torch.float32), torch.as_tensor(low, dtype=torch.float32), torch.as_tensor(high, dtype=torch.float32))
    for it in range(2):
        if it:
            w2 = torch.as_tensor(rng.randn(pol.weights_size), dtype=torch.float32)
            pol.set_weights(w2.clone())
            m.ok(torch.equal(torch.as_tensor(pol.get_weights()), w2), 'weights-round-trip', 'clipped')
            m.event('round_trips')
        w = pol.get_weights().double()
        m.eq(len(w), n_w(d, k), 'weights-size', 'clipped')
        s = torch.as_tensor(rng.randn(d), dtype=torch.float32)
        mu = mlp(w, s.double(), d, k).numpy()
        x = torch.stack([pol.draw_action(s, None)[0] for _ in range(n_draw)]).double().numpy()
        m.eq(x.shape, (n_draw, k), 'action-shape', 'clipped')
        lo32, hi32 = low.astype(np.float32).astype(float), high.astype(np.float32).astype(float)
        m.ok((x >= lo32).all() and (x <= hi32).all(), 'clipped-action-out-of-range', f'{x.min(0)} {x.max(0)} {low} {high}')
        m.event('limits', n_draw)
        m.event('drawn', n_draw)
        m.event('clipped_at_limit', int(((x == lo32) | (x == hi32)).any(1).sum()))
        if width > 100:
            whitened(m, np.linalg.solve(np.linalg.cholesky(cov), (x - mu).T).T, 'clipped-draws', 'wide limits')
            continue
        for i in range(k):
            sd = np.sqrt(cov[i, i])
            for t in list(np.linspace(lo32[i], hi32[i], 6)[:-1]):
                cnt = int((x[:, i] <= t).sum())
                p = float(norm.cdf((t - mu[i]) / sd))
                dn, up = max(p - 1e-4, 0), min(p + 1e-4, 1)
                m.ok(binom.cdf(cnt, n_draw, dn) > P_FALSE and binom.sf(cnt - 1, n_draw, up) > P_FALSE, 'clipped-draws', f'component {i}: {cnt} of {n_draw} below {t}, probability {p}')
        m.event('draw_tests')
        m.seen('clipped', d, k, width, it)


def deterministic(m, rng, d, k, poly):
    seed(rng)
    mu = Model(rng, d, k, poly)
    pol = DeterministicPolicy(mu.app)
    for it in range(10):
        w = rng.randn(len(mu.w0))
        pol.set_weights(w.copy())
        m.close(pol.get_weights(), w, 'weights-round-trip', 'deterministic', rtol=0, atol=0)
        m.eq(pol.weights_size, len(w), 'weights-size', 'deterministic')
        s = rng.randn(d)
        want = mu.out(torch.as_tensor(w), s).numpy()
        a = pol.draw_action(s, None)[0]
        m.close(np.asarray(a).ravel(), want, 'deterministic-action', '', rtol=1e-9, atol=1e-12)
        m.eq(float(pol(s, a)), 1., 'deterministic-density')
        b = np.array(a)
        b[(0,) * (b.ndim - 1) + (int(rng.randint(k)),)] += rng.choice([1e-6, 1., -3.])
        m.eq(float(pol(s, b)), 0., 'deterministic-density')
        m.ok(pol.get_regressor() is mu.app, 'deterministic-regressor')
        m.event('deterministic', 2)
        m.event('round_trips')
        m.seen('deterministic', d, k, poly, it)


def cases(tier, rng):
    R = 2 if tier == 'quick' else 12
    N = 2000 if tier == 'quick' else 6000
    for r in range(R):
        for kind in ('fixed', 'diagonal', 'state-std', 'state-log-std'):
            for d, k in ((1, 1), (1, 3), (3, 1), (4, 2), (2, 4)):
                for poly in (False, True):
                    yield gaussians, dict(kind=kind, d=d, k=k, poly=poly, n_states=6, n_draw=N // 2)
        for d, k in ((1, 1), (3, 1), (2, 3), (4, 2)):
            for std0 in (1., .05, 3.):
                yield torch_gaussian, dict(d=d, k=k, std0=std0, n_states=4, n_draw=N)
            for lo, hi in ((-20, 2), (-.4, .3)):
                yield recurrent, dict(d=d, k=k, std0=.6, lo=lo, hi=hi, n_states=3, n_draw=N // 4)
            for scale in (1., 6.):
                for lo, hi in ((-20, 2), (-.5, .2), (-3, -1)):
                    yield sac, dict(d=d, k=k, scale=scale, lo=lo, hi=hi, n_states=3, n_draw=N)
            for theta, dt in ((.15, .01), (.5, .3), (2., .05)):
                for x0 in (False, True):
                    yield ou, dict(d=d, k=k, theta=theta, dt=dt, x0=x0, T=N // 10)
            for width in (1., 3., 1e4):
                yield clipped, dict(d=d, k=k, width=width, n_draw=N)
            for poly in (False, True):
                yield deterministic, dict(d=d, k=k, poly=poly)
        for d, k in ((1, 2), (3, 2), (2, 4), (4, 6)):
            for beta in (.3, 1., 8.):
                yield torch_boltzmann, dict(d=d, k=k, beta=beta, n_states=4, n_draw=N)
