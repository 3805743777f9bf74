"""C20: parameter distributions."""
import numpy as np
import torch
from mushroom_rl.distributions import (GaussianDistribution, GaussianDiagonalDistribution, GaussianCholeskyDistribution,
                                       DiagonalGaussianTorchDistribution, CholeskyGaussianTorchDistribution)
from checks.c19 import logpdf, spd, whitened, seed, flat_grad, D

PROPERTY = 'C20'
RULE = ('distributions of 1 to 5 dimensions with random moments over several orders of magnitude, parameters set and read back '
        'repeatedly; densities, entropies and score gradients against a double precision twin differentiated automatically, whitened '
        'draws against the standard normal, fits against weighted moments, constrained fits against the divergence and entropy '
        'bounds and against every feasible member of the solution family')
ASSUMPTIONS = ['constrained fits are checked when the weights are spread over more samples than twice the dimensions (effective sample size)']
NEED = dict(densities=800, score_gradients=500, entropies=200, drawn=60000, round_trips=200, fits=200, weighted_fits=200,
            constrained_fits=150, divergence_bound_reached=60, entropy_bound_reached=30, candidates=3000, torch_gradients=60)


def unpack(kind, p, k, state):
    """Mean and covariance stated by the parameter vector p (differentiable tensor)."""
    mu = p[:k]
    if kind == 'fixed':
        return mu, torch.as_tensor(state['cov'], dtype=D)
    if kind == 'diagonal':
        return mu, torch.diag(p[k:] ** 2)
    if kind == 'torch-diagonal':
        return mu, torch.diag(torch.exp(2 * p[k:]))
    L = torch.zeros(k, k, dtype=D)
    i = torch.tril_indices(k, k)
    L = L.index_put((i[0], i[1]), p[k:])
    return mu, L @ L.T


def build(kind, mu, cov, std):
    if kind == 'fixed':
        return GaussianDistribution(mu.copy(), cov.copy())
    if kind == 'diagonal':
        return GaussianDiagonalDistribution(mu.copy(), std.copy())
    if kind == 'cholesky':
        return GaussianCholeskyDistribution(mu.copy(), cov.copy())
    t = lambda x: torch.as_tensor(x, dtype=torch.float32)
    return DiagonalGaussianTorchDistribution(t(mu), t(std)) if kind == 'torch-diagonal' else CholeskyGaussianTorchDistribution(t(mu), t(cov))


def fresh(rng, kind, k):
    p = [rng.randn(k) * rng.choice([.1, 1., 10.])]
    if kind == 'diagonal':
        p.append(np.exp(rng.randn(k)))
    elif kind == 'torch-diagonal':
        p.append(rng.randn(k))
    elif kind in ('cholesky', 'torch-cholesky'):
        L = np.tril(rng.randn(k, k) * .5)
        L[np.diag_indices(k)] = np.exp(rng.randn(k) * .7)
        p.append(L[np.tril_indices(k)])
    return np.concatenate(p)


def size(kind, k):
    return {'fixed': k, 'diagonal': 2 * k, 'torch-diagonal': 2 * k}.get(kind, k + k * (k + 1) // 2)


def moments(m, rng, kind, k, n_sets, n_draw):
    seed(rng)
    tor = kind.startswith('torch')
    scale = 10. ** rng.uniform(-2, 2)
    mu, cov, std = rng.randn(k), spd(rng, k, scale), np.sqrt(scale) * np.exp(rng.randn(k) * .5)
    state = dict(cov=cov)
    dist = build(kind, mu, cov, std)
    m.eq(int(dist.parameters_size), size(kind, k), 'parameters-size', kind)
    for it in range(n_sets):
        if it == 0:
            want0 = (mu, np.diag(std ** 2) if 'diag' in kind else cov)
        else:
            p = fresh(rng, kind, k)
            given = torch.as_tensor(p, dtype=torch.float32) if tor else p.copy()
            dist.set_parameters(given)
            back = dist.get_parameters()
            m.close(torch.as_tensor(back).detach(), given, 'parameters-round-trip', kind, rtol=0, atol=0)
            m.event('round_trips')
        p = torch.as_tensor(dist.get_parameters()).detach().double().clone()
        m.eq(tuple(p.shape), (size(kind, k),), 'parameters-shape', kind)
        pt = p.clone().requires_grad_(True)
        mean, cv = unpack(kind, pt, k, state)
        tol = 2e-3 if tor else 1e-7
        if it == 0:
            m.close(mean.detach(), want0[0], 'initial-mean', kind, rtol=tol, atol=tol)
            m.close(cv.detach(), want0[1], 'initial-covariance', kind, rtol=tol, atol=tol * scale)
        m.close(torch.as_tensor(dist.mean()).detach(), mean.detach(), 'mean', kind, rtol=1e-6, atol=1e-6)
        L = torch.linalg.cholesky(cv.detach())
        ent = .5 * k * (1 + np.log(2 * np.pi)) + float(torch.log(torch.diagonal(L)).sum())
        m.close(float(dist.entropy()), ent, 'entropy', f'{kind} {k}', rtol=1e-5, atol=1e-4 if tor else 1e-8)
        m.event('entropies')
        th = mean.detach() + torch.as_tensor(rng.randn(6, k) * rng.choice([.3, 1., 3.])) @ L.T
        if tor:
            th = th.float()
        for x in th:
            lp = logpdf(x.double(), mean, cv)
            arg = x if tor else x.numpy()
            got = dist.log_pdf(arg)
            m.close(float(got), float(lp), 'log-density', f'{kind} {k}', rtol=1e-4 if tor else 1e-8, atol=1e-3 if tor else 1e-8)
            m.close(float(dist(arg)), float(torch.exp(lp)), 'density', f'{kind} {k}', rtol=3e-3 if tor else 1e-6, atol=0)
            m.event('densities')
            g = torch.autograd.grad(lp, pt, retain_graph=True)[0]
            top = float(g.abs().max())
            if not tor:
                dl = np.asarray(dist.diff_log(arg))
                m.eq(dl.shape, (size(kind, k),), 'score-shape', kind)
                m.close(dl, g, 'score-gradient', f'{kind} {k}', rtol=1e-6, atol=1e-7 * (1 + top))
                d = np.asarray(dist.diff(arg))
                m.close(d, g.numpy() * float(torch.exp(lp)), 'density-gradient', f'{kind} {k}', rtol=1e-6, atol=1e-7 * float(torch.exp(lp)) * (1 + top))
                m.event('score_gradients')
            else:
                ps = list(dist.parameters())
                gg = torch.autograd.grad(got, ps)
                gg = torch.cat([gg[0], gg[1] if kind == 'torch-diagonal' else gg[1][tuple(torch.tril_indices(k, k))]])
                m.close(gg, g, 'score-gradient', f'{kind} {k}', rtol=1e-2, atol=2e-3 * (1 + top))
                if kind == 'torch-cholesky':
                    up = torch.triu(torch.autograd.grad(dist.log_pdf(x), ps)[1], 1)
                    m.close(up, torch.zeros_like(up), 'score-gradient-upper-triangle', kind, rtol=0, atol=0)
                m.event('torch_gradients')
        # batches of points
        got = dist.log_pdf(th if tor else th.numpy())
        want = logpdf(th.double(), mean.detach(), cv.detach())
        if tor:
            m.eq(tuple(dist.log_pdf(th[:1]).shape), (1,), 'log-density-shape', kind)
            m.eq(tuple(got.shape), (len(th),), 'log-density-shape', kind)
        m.close(torch.as_tensor(got).detach().reshape(-1), want, 'log-density-batch', kind, rtol=1e-4 if tor else 1e-8, atol=1e-3 if tor else 1e-8)
        m.close(torch.as_tensor(dist.get_parameters()).detach().double(), p, 'parameters-changed-by-query', kind, rtol=0, atol=0)
        if it < 2:
            s = np.array([np.asarray(dist.sample()) for _ in range(n_draw)], dtype=float)
            m.eq(s.shape, (n_draw, k), 'sample-shape', kind)
            whitened(m, np.linalg.solve(L.numpy(), (s - mean.detach().numpy()).T).T, 'samples', f'{kind} {k}')
        m.seen(kind, k, it, float(p[0]))


def fits(m, rng, kind, k, n_sets):
    seed(rng)
    dist = build(kind, rng.randn(k), spd(rng, k), np.exp(rng.randn(k)))
    for it in range(n_sets):
        n = int(rng.randint(k + 2, 40))
        th = rng.randn(n, k) @ np.linalg.cholesky(spd(rng, k, 10. ** rng.uniform(-2, 2))).T + rng.randn(k) * 3
        w = None
        if it % 2:
            w = np.exp(rng.randn(n) * rng.choice([.3, 1., 2.])) * 10. ** (rng.uniform(-3, 3) if rng.rand() < .6 else rng.uniform(-40, 20))
            if rng.rand() < .5:
                w[rng.rand(n) < .3] = 0.
                w[:k + 2] = np.maximum(w[:k + 2], w.max() * .1)
        t0, w0 = th.copy(), None if w is None else w.copy()
        if w is None:
            dist.mle(th)
        else:
            dist.mle(th, w)
        m.ok(np.array_equal(th, t0) and (w is None or np.array_equal(w, w0)), 'fit-modifies-samples', kind)
        p = np.asarray(dist.get_parameters(), dtype=float)
        v = np.ones(n) if w is None else w
        mu = (v[:, None] * th).sum(0) / v.sum()
        m.close(p[:k], mu, 'fit-mean', kind, rtol=1e-9, atol=1e-9 * np.abs(th).max())
        dl = th - mu
        cov = (v[:, None] * dl).T @ dl
        if w is not None:
            cov /= v.sum() - (v ** 2).sum() / v.sum()          # unbiased for reliability weights
        else:
            cov /= n if kind == 'diagonal' else n - 1
        if kind == 'diagonal':
            m.close(p[k:] ** 2, np.diag(cov), 'fit-variance', f'weights {w is not None}', rtol=1e-8, atol=1e-12)
        elif kind == 'cholesky':
            L = np.zeros((k, k))
            L[np.tril_indices(k)] = p[k:]
            m.close(L @ L.T, cov, 'fit-covariance', f'weights {w is not None}', rtol=1e-7, atol=1e-9 * np.abs(cov).max())
        m.event('fits' if w is None else 'weighted_fits')
        m.seen('fit', kind, k, n, it)


def kl(m0, S0, m1, S1):
    i = np.linalg.inv(S1)
    return .5 * (np.trace(i @ S0) - len(m0) + np.linalg.slogdet(S1)[1] - np.linalg.slogdet(S0)[1] + (m1 - m0) @ i @ (m1 - m0))


def wll(w, th, mu, S):
    return float((w * logpdf(torch.as_tensor(th), torch.as_tensor(mu), torch.as_tensor(S)).numpy()).sum())


def constrained(m, rng, kind, k, eps, kappa):
    seed(rng)
    mu0, cov0, std0 = rng.randn(k), spd(rng, k), np.exp(rng.randn(k) * .5)
    dist = build(kind, mu0, cov0, std0)
    S0 = np.diag(std0 ** 2) if kind == 'diagonal' else cov0
    n = int(rng.randint(10, 50))
    for _ in range(50):
        th = mu0 + rng.randn(n, k) @ np.linalg.cholesky(S0).T
        J = -((th - rng.randn(k)) ** 2).sum(1)
        w = np.exp((J - J.max()) / (np.std(J) * rng.choice([.5, 1., 3.])))
        if w.sum() ** 2 / (w ** 2).sum() > 2 * k + 2:
            break
    else:
        return
    t0, w0 = th.copy(), w.copy()
    if kind == 'fixed':
        dist.con_wmle(th, w, eps)
    else:
        dist.con_wmle(th, w, eps, kappa)
    m.ok(np.array_equal(th, t0) and np.array_equal(w, w0), 'constrained-fit-modifies-samples', kind)
    p = np.asarray(dist.get_parameters(), dtype=float)
    m.ok(np.isfinite(p).all(), 'constrained-fit-not-finite', kind)
    mu, S = [x.numpy() for x in unpack(kind, torch.as_tensor(p), k, dict(cov=cov0))]
    d = kl(mu0, S0, mu, S)
    m.ok(d <= eps * 1.03 + 2e-3, 'constrained-fit-divergence', f'{kind} divergence {d:.5f} allowed {eps}')
    dh = .5 * (np.linalg.slogdet(S0)[1] - np.linalg.slogdet(S)[1])
    if kind != 'fixed':
        m.ok(dh <= kappa * 1.03 + 6e-3, 'constrained-fit-entropy', f'{kind} entropy loss {dh:.5f} allowed {kappa}')
    m.event('constrained_fits')
    m.event('divergence_bound_reached', int(d > .97 * eps))
    m.event('entropy_bound_reached', int(kind != 'fixed' and dh > .97 * kappa))
    # no feasible member of the solution family has a larger weighted likelihood
    got = wll(w, th, mu, S)
    W = w.sum()
    for _ in range(40):
        eta = 10. ** rng.uniform(-4, 4) * W
        om = rng.choice([0., rng.rand() * (W + eta)])
        c = (w @ th + eta * mu0) / (W + eta)
        dl = th - c
        C = ((w[:, None] * dl).T @ dl + eta * S0 + eta * np.outer(c - mu0, c - mu0)) / (W + eta - om)
        if kind == 'diagonal':
            C = np.diag(np.diag(C))
        elif kind == 'fixed':
            C = cov0
        if kl(mu0, S0, c, C) > eps or (kind != 'fixed' and .5 * (np.linalg.slogdet(S0)[1] - np.linalg.slogdet(C)[1]) > kappa):
            continue
        m.ok(wll(w, th, c, C) <= got + 2e-2 * W, 'constrained-fit-not-optimal', f'{kind} k {k} eps {eps} kappa {kappa}: a feasible fit has weighted likelihood {wll(w, th, c, C):.4f}, the result {got:.4f}')
        m.event('candidates')
    m.seen('constrained', kind, k, eps, kappa, n)


def cases(tier, rng):
    R = 1 if tier == 'quick' else 20
    N = 1000 if tier == 'quick' else 4000
    for r in range(R):
        for kind in ('fixed', 'diagonal', 'cholesky', 'torch-diagonal', 'torch-cholesky'):
            for k in (1, 2, 3, 5):
                for c in range(2):
                    yield moments, dict(kind=kind, k=k, n_sets=6, n_draw=N)
        for kind in ('fixed', 'diagonal', 'cholesky'):
            for k in (1, 2, 3, 5):
                yield fits, dict(kind=kind, k=k, n_sets=40)
                for eps in (.02, .1, .5):
                    for kappa in (.03, .1, .5):
                        for c in range(3):
                            yield constrained, dict(kind=kind, k=k, eps=eps, kappa=kappa)
