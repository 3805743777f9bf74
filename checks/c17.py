"""C17: deep actor-critic updates against independent recomputation of targets, objectives and steps."""
import numpy as np
import torch
import torch.nn.functional as F
from mushroom_rl.algorithms.actor_critic import DDPG, TD3, SAC, A2C, PPO, PPO_BPTT, TRPO
from mushroom_rl.approximators import Regressor
from mushroom_rl.core import MDPInfo, Dataset
from mushroom_rl.core.dataset import DatasetInfo
from mushroom_rl.policy import GaussianPolicy, GaussianTorchPolicy, BoltzmannTorchPolicy
from mushroom_rl.rl_utils.preprocessors import StandardizationPreprocessor
from mushroom_rl.rl_utils.replay_memory import ReplayMemory
from mushroom_rl.rl_utils.spaces import Box, Discrete
from vlib.agents import build, seed_all, RNNActor, RNNCritic
from vlib.nets import *
from checks.c14 import regs
from checks.c16 import gae_ref, mc_ref

PROPERTY = 'C17'
RULE = ('each actor-critic fed with random blocks of transitions (terminal, truncated, unfinished), random configurations and '
        'plain SGD; at every learning step the batch, the regression call, the sampled noise and all parameters are observed and '
        'the critic target, actor gradient step, temperature, minibatch steps and trust region are recomputed on copies')
NEED = dict(critic_targets=600, terminal_targets=600, actor_steps=500, temperature_steps=100, smoothed_actions=1000,
            noise_statistics=2, ppo_minibatches=300, a2c_steps=30, value_targets=150, trpo_fits=60, trpo_exact_steps=15, trpo_conjugate_steps=10, recurrent_rows=400,
            recurrent_steps=15, clipped_gradients=50, preprocessed_fits=15)
SD = 2
DT = dict(torch=torch.float32, numpy=float)


def t32(x):
    return torch.as_tensor(np.asarray(x, dtype=np.float32))


def sgd(lr):
    return {'class': torch.optim.SGD, 'params': {'lr': lr}}


class Rows:
    def __init__(self, rng, adim, p_last, scale, na=None):
        self.rng, self.adim, self.p_last, self.scale, self.na = rng, adim, p_last, scale, na
        self.cur = None

    def block(self, n):
        s, a, r, nx, ab, la = [], [], [], [], [], []
        for _ in range(n):
            if self.cur is None:
                self.cur = self.rng.randn(SD)
            nxt = self.rng.randn(SD)
            last = bool(self.rng.rand() < self.p_last)
            s.append(self.cur)
            a.append(self.rng.randn(self.adim) if self.na is None else [self.rng.randint(self.na)])
            r.append(self.rng.randn() * self.scale)
            nx.append(nxt)
            ab.append(last and bool(self.rng.rand() < .6))
            la.append(last)
            self.cur = None if last else nxt
        return (np.array(s, dtype=np.float32), np.array(a, dtype=np.float32 if self.na is None else np.int64),
                np.array(r, dtype=np.float32), np.array(nx, dtype=np.float32), np.array(ab), np.array(la))


def ds_of(b, backend, gamma, ps=None):
    """A dataset of the block (optionally with policy memories)."""
    s, a, r, nx, ab, la = b
    sh = None if ps is None else ps[0].shape[1:]
    tor = backend == 'torch'
    info = DatasetInfo(backend, None, 100, gamma, s.shape[1:], torch.float32 if tor else np.float32, a.shape[1:],
                       (torch.float32 if a.dtype.kind == 'f' else torch.int64) if tor else a.dtype, sh)
    ds = Dataset(info, n_steps=len(s))
    c = torch.tensor if tor else np.array
    for i in range(len(s)):
        x = (c(s[i]), c(a[i]), float(r[i]), c(nx[i]), bool(ab[i]), bool(la[i]))
        if ps is not None:
            x += (c(ps[0][i]), c(ps[1][i]))
        ds.append(x, {})
    return ds


def bounds(rng, adim):
    lo = -np.round(rng.rand(adim) * 2 + .3, 2)
    return lo.astype(np.float32), (lo + np.round(rng.rand(adim) * 3 + .5, 2)).astype(np.float32)


class Tap:
    """Observes the replay batches and the random draws made while a fit runs."""

    def __init__(self):
        self.batches, self.draws = [], []

    def __enter__(self):
        N = torch.distributions.Normal
        self.real = ReplayMemory.get, N.rsample, N.sample
        tap = self

        def get(mem, n):
            out = tap.real[0](mem, n)
            tap.batches.append([x.clone() if torch.is_tensor(x) else np.array(x) for x in out])
            return out

        def rs(dist, *a, **k):
            x = tap.real[1](dist, *a, **k)
            tap.draws.append((dist.loc.detach().clone(), x.detach().clone()))
            return x

        def sm(dist, *a, **k):
            x = tap.real[2](dist, *a, **k)
            tap.draws.append((dist.loc.detach().clone(), x.detach().clone()))
            return x
        ReplayMemory.get, N.rsample, N.sample = get, rs, sm
        return self

    def __exit__(self, *a):
        N = torch.distributions.Normal
        ReplayMemory.get, N.rsample, N.sample = self.real

    def draw_for(self, loc):
        for l, x in self.draws:
            if l.shape == loc.shape and torch.allclose(l, loc, rtol=1e-5, atol=1e-6):
                return x
        return None


def record_fit(reg):
    calls = []
    real = reg.fit

    def fit(*z, **k):
        calls.append(([x.detach().clone() if torch.is_tensor(x) else np.array(x) for x in z], dict(k)))
        return real(*z, **k)
    reg.fit = fit
    return calls


def fvec(x):
    return np.asarray(x.detach() if torch.is_tensor(x) else x, dtype=np.float64).ravel()


def near(m, got, want, key, msg, rtol=2e-4, atol=2e-5):
    want = fvec(want)
    m.close(fvec(got), want, key, msg, rtol=rtol, atol=atol * (1 + np.abs(want).max(initial=0)))


def near_step(m, got, want, base, key, msg, rel=1e-2):
    """The displacement of the parameters equals the recomputed one, relative to its size."""
    base = fvec(base)
    g, w = fvec(got) - base, fvec(want) - base
    m.close(g, w, key, msg, rtol=rel, atol=rel * np.abs(w).max(initial=0) + 1e-6)


def clip_(grads, mx):
    n = torch.sqrt(sum((g ** 2).sum() for g in grads))
    c = min(1., float(mx / (n + 1e-6)))
    return [g * c for g in grads], c < 1


def step_of(net_params, loss, lr, clipping=None):
    g = torch.autograd.grad(loss, net_params, allow_unused=True)
    g = [torch.zeros_like(p) if x is None else x for p, x in zip(net_params, g)]
    clipped = False
    if clipping is not None:
        g, clipped = clip_(g, clipping)
    return [p.detach() - lr * x for p, x in zip(net_params, g)], clipped


def offpolicy(m, rng, algo, adim, gamma, tau, batch, init, cap, delay, warmup, p_last, scale, blocks, opts, backend):
    seed_all(int(rng.randint(2 ** 31)))
    lo, hi = bounds(rng, adim)
    info = MDPInfo(Box(-10., 10., shape=(SD,), data_type=DT[backend]), Box(lo, hi, data_type=DT[backend]), gamma, 100, backend=backend)
    lr, clr = .05, .1
    aopt = sgd(lr)
    if opts.get('clip'):
        aopt['clipping'] = dict(method=torch.nn.utils.clip_grad_norm_, params=dict(max_norm=opts['clip'], norm_type=2))
    critic = dict(network=CriticNet, optimizer=sgd(clr), loss=F.mse_loss, input_shape=(SD + adim,), output_shape=(1,))
    mu = dict(network=MLP, input_shape=(SD,), output_shape=(adim,), n_features=6)
    mem = dict(batch_size=batch, initial_replay_size=init, max_replay_size=cap, tau=tau)
    if algo == 'sac':
        kw = {k: opts[k] for k in ('use_log_alpha_loss', 'target_entropy', 'log_std_min', 'log_std_max') if k in opts}
        ag = SAC(info, mu, dict(mu), aopt, critic, warmup_transitions=warmup, lr_alpha=.02, **mem, **kw)
        H = opts.get('target_entropy', -float(adim))
        lsmin, lsmax = opts.get('log_std_min', -20), opts.get('log_std_max', 2)
        ralpha = torch.zeros((), requires_grad=True)
        ropt = torch.optim.Adam([ralpha], lr=.02)
        anets = lambda: [nets_of(r)[0] for r in pol_regs(ag.policy)]
    else:
        kw = {k: opts[k] for k in ('noise_std', 'noise_clip') if k in opts} if algo == 'td3' else {}
        ag = (DDPG if algo == 'ddpg' else TD3)(info, GaussianPolicy, dict(sigma=np.eye(adim)),
                                               mu, aopt, critic, policy_delay=delay, **mem, **kw)
        nstd, nclip = opts.get('noise_std', .2), opts.get('noise_clip', .5)
    tgt, onl = regs(ag)
    ck = [k for k in tgt if 'critic' in k][0]
    crit, tcrit = onl[ck], tgt[ck]
    if algo != 'sac':
        ak = [k for k in tgt if 'actor' in k][0]
        actor, tactor = onl[ak], tgt[ak]
        anets = lambda: nets_of(actor)
    m.eq(len(nets_of(crit)), 1 if algo == 'ddpg' else 2, 'number-of-critics', algo)
    # random parameters, so that members differ
    calls = record_fit(crit)
    seen_actions = []

    def hook(mod, args, kwargs=None):
        if len(args) > 1:
            seen_actions.append((args[0].detach().clone(), args[1].detach().clone()))
    st = Rows(rng, adim, p_last, scale)
    stored = learned = 0
    for nb in blocks:
        b = st.block(nb)
        stored = min(cap, stored + nb)
        pre_c, pre_tc, pre_a = clone(crit), clone(tcrit), [copy_net(x) for x in anets()]
        pre_ta = clone(tactor) if algo != 'sac' else None
        calls.clear()
        seen_actions.clear()
        hooks = [n.register_forward_pre_hook(hook) for n in nets_of(tcrit)]
        with Tap() as tap:
            ag.fit(ds_of(b, backend, gamma))
        for h in hooks:
            h.remove()
        ready = stored > init
        m.eq(len(calls), int(ready), 'learning-steps', f'{algo} stored {stored} initial size {init}')
        post_a = [copy_net(x) for x in anets()]
        if not ready:
            for x, y in zip(pre_a, post_a):
                m.eq(flat(y), flat(x), 'actor-moved-before-learning')
            continue
        m.eq(len(tap.batches), 1, 'one-batch', algo)
        s, a, r, nx, ab = [t32(x) for x in tap.batches[0][:5]]
        m.eq(len(s), batch, 'batch-size')
        z, k = calls[0]
        near(m, z[0], s, 'critic-fit-states', algo)
        near(m, z[1], a, 'critic-fit-actions', algo)
        live = 1 - fvec(ab)
        m.event('terminal_targets', int(fvec(ab).sum()))
        m.event('critic_targets')
        post_c = clone(crit)
        with torch.no_grad():
            if algo == 'ddpg':
                q = pre_tc[0](nx, pre_ta[0](nx)).reshape(-1)
            elif algo == 'td3':
                mua = pre_ta[0](nx)
                act = [x for x in seen_actions if x[0].shape == nx.shape and torch.equal(x[0], nx)]
                m.ok(len(act) >= 2, 'target-critics-not-evaluated', f'{len(act)}')
                an = act[0][1]
                for x in act[1:]:
                    m.ok(torch.equal(x[1], an), 'target-critics-see-different-actions')
                L, Hh = torch.as_tensor(lo), torch.as_tensor(hi)
                m.ok(bool(((an >= L - 1e-6) & (an <= Hh + 1e-6)).all()), 'smoothed-action-outside-limits')
                want_lo = torch.minimum(torch.maximum(mua - nclip, L), Hh)
                want_hi = torch.minimum(torch.maximum(mua + nclip, L), Hh)
                m.ok(bool(((an >= want_lo - 1e-5) & (an <= want_hi + 1e-5)).all()), 'smoothing-noise-not-clipped', f'clip {nclip}')
                if nstd == 0:
                    near(m, an, torch.minimum(torch.maximum(mua, L), Hh), 'target-action', 'no noise')
                m.event('smoothed_actions', an.numel())
                q = torch.min(*[n(nx, an).reshape(-1) for n in pre_tc])
            else:
                # the next action is drawn from the policy after the actor step of this fit
                loc = post_a[0](nx)
                raw = tap.draw_for(loc)
                m.ok(raw is not None, 'next-action-not-drawn-from-the-current-policy')
                lp, an = sac_logp(post_a, nx, raw, lo, hi, lsmin, lsmax)
        if algo == 'sac':
            due = stored > warmup
            alpha0 = float(ralpha.exp())
            if due:
                sraw = tap.draw_for(pre_a[0](s).detach())
                m.ok(sraw is not None, 'actor-action-not-drawn-from-the-policy')
                mu0 = pre_a[0](s)
                sg0 = torch.clamp(pre_a[1](s), lsmin, lsmax).exp()
                eps = ((sraw - mu0) / sg0).detach()
                lpa, aa = sac_logp(pre_a, s, mu0 + sg0 * eps, lo, hi, lsmin, lsmax)
                qa = torch.min(*[n(s, aa).reshape(-1) for n in pre_c])
                loss = (alpha0 * lpa - qa).mean()
                ps = [p for n in pre_a for p in n.parameters()]
                want, cl = step_of(ps, loss, lr, opts.get('clip'))
                got = [p for n in post_a for p in n.parameters()]
                near_step(m, torch.cat([x.flatten() for x in got]), torch.cat([x.flatten() for x in want]), torch.cat([x.flatten() for x in ps]), 'actor-step', f'sac alpha {alpha0}')
                m.event('actor_steps')
                m.event('clipped_gradients', int(cl))
                ropt.zero_grad()
                al = (ralpha if opts.get('use_log_alpha_loss') else ralpha.exp())
                (-(al * (lpa.detach() + H)).mean()).backward()
                ropt.step()
                m.event('temperature_steps')
            else:
                for x, y in zip(pre_a, post_a):
                    m.eq(flat(y), flat(x), 'actor-moved-during-warmup')
            la = [v for v in vars(ag).values() if torch.is_tensor(v) and v.numel() == 1 and v.requires_grad]
            if la:
                near(m, la[0], ralpha, 'temperature', f'log alpha, target entropy {H}', rtol=1e-3, atol=1e-4)
            with torch.no_grad():
                q = torch.min(*[n(nx, an).reshape(-1) for n in pre_tc]) - ralpha.exp() * lp
        y = fvec(r) + gamma * live * fvec(q)
        near(m, z[2], y, 'critic-target', f'{algo} gamma {gamma}', rtol=1e-3 if algo == 'sac' else 2e-4, atol=1e-4)
        # critic step
        for i, n in enumerate(pre_c):
            loss = ((n(s, a).reshape(-1) - t32(fvec(z[2]))) ** 2).mean()
            want, _ = step_of(list(n.parameters()), loss, clr)
            near_step(m, flat(post_c[i]), torch.cat([x.flatten() for x in want]), flat(n), 'critic-step', f'{algo} critic {i}')
        if algo != 'sac':
            if learned % delay == 0:
                loss = -post_c[0](s, pre_a[0](s)).mean()
                want, cl = step_of(list(pre_a[0].parameters()), loss, lr, opts.get('clip'))
                near_step(m, flat(post_a[0]), torch.cat([x.flatten() for x in want]), flat(pre_a[0]), 'actor-step', algo)
                m.event('actor_steps')
                m.event('clipped_gradients', int(cl))
            else:
                m.eq(flat(post_a[0]), flat(pre_a[0]), 'actor-moved-off-schedule')
        learned += 1
        m.seen(algo, adim, delay, bool(fvec(ab).any()), gamma, tuple(sorted(opts)))


def pol_regs(pol):
    """Mean and deviation networks of the squashed Gaussian policy, in the order of its parameters."""
    ids = [id(p) for p in pol.parameters()]
    r = [v for v in vars(pol).values() if isinstance(v, Regressor)]
    return sorted(r, key=lambda x: ids.index(id(next(nets_of(x)[0].parameters()))))


def sac_logp(nets, s, raw, lo, hi, lsmin, lsmax):
    mu, ls = nets[0](s), torch.clamp(nets[1](s), lsmin, lsmax)
    lp = (-.5 * ((raw - mu) / ls.exp()) ** 2 - ls - .5 * np.log(2 * np.pi)).sum(1)
    u = torch.tanh(raw)
    lp = lp - torch.log(1 - u ** 2 + 1e-6).sum(1)
    L, H = torch.as_tensor(lo), torch.as_tensor(hi)
    return lp, u * .5 * (H - L) + .5 * (H + L)


def td3_noise(m, rng, std, clip):
    """Distribution of the target smoothing noise over a large batch: Gaussian of the configured deviation, clipped."""
    seed_all(int(rng.randint(2 ** 31)))
    n = 4000
    info = MDPInfo(Box(-10., 10., shape=(SD,), data_type=torch.float32), Box(-100., 100., shape=(1,), data_type=torch.float32), .9, 100, backend='torch')
    critic = dict(network=CriticNet, optimizer=sgd(.01), loss=F.mse_loss, input_shape=(SD + 1,), output_shape=(1,))
    mu = dict(network=MLP, input_shape=(SD,), output_shape=(1,), n_features=6)
    ag = TD3(info, GaussianPolicy, dict(sigma=np.eye(1)), mu, sgd(.01), critic, batch_size=n,
             initial_replay_size=10, max_replay_size=100, tau=.1, noise_std=std, noise_clip=clip)
    tgt, onl = regs(ag)
    tc = tgt[[k for k in tgt if 'critic' in k][0]]
    ta = copy_net(nets_of(tgt[[k for k in tgt if 'actor' in k][0]])[0])
    rec = []
    nets_of(tc)[0].register_forward_pre_hook(lambda mod, a: rec.append((a[0].detach().clone(), a[1].detach().clone())) if len(a) > 1 else None)
    ag.fit(ds_of(Rows(rng, 1, .1, 1.).block(60), 'torch', .9))
    m.ok(rec, 'target-critics-not-evaluated')
    with torch.no_grad():
        e = fvec(rec[0][1] - ta(rec[0][0]))
    from scipy.stats import binom, norm, kstest
    tol = 1e-4
    edge = np.abs(e) > clip - tol
    p = 2 * norm.sf((clip - tol) / std)
    k = int(edge.sum())
    m.ok(min(binom.cdf(k, len(e), p), binom.sf(k - 1, len(e), p)) > 1e-10, 'noise-clipped-fraction', f'{k} of {len(e)} expected {p}')
    inner = e[~edge]
    if len(inner) > 100:
        c = norm.cdf((clip - tol) / std)
        pv = kstest(inner, lambda x: (norm.cdf(x / std) - (1 - c)) / (2 * c - 1)).pvalue
        m.ok(pv > 1e-10, 'noise-distribution', f'std {std} clip {clip} p={pv}')
    m.event('noise_statistics')


# ---- on-policy -----------------------------------------------------------------------------------------------------------------

def pol_params(pol):
    return [p.detach().clone().requires_grad_(True) for p in pol.parameters()]


def mlp(P, s):
    return torch.tanh(s @ P[0].T + P[1]) @ P[2].T + P[3]


def logp(P, s, a, beta):
    if beta is None:
        mu, ls = mlp(P, s), P[4]
        return (-.5 * ((a - mu) / ls.exp()) ** 2 - ls - .5 * np.log(2 * np.pi)).sum(1)
    return torch.log_softmax(mlp(P, s) * beta, 1).gather(1, a.long())[:, 0]


def entropy(P, s, beta):
    if beta is None:
        return (P[4] + .5 * np.log(2 * np.pi * np.e)).sum()
    l = torch.log_softmax(mlp(P, s) * beta, 1)
    return -(l.exp() * l).sum(1).mean()


def kl_old_new(P0, P1, s, beta, s0=None):
    s0 = s if s0 is None else s0
    if beta is None:
        m0, l0, m1, l1 = mlp(P0, s0), P0[4], mlp(P1, s), P1[4]
        return (l1 - l0 + (torch.exp(2 * l0) + (m0 - m1) ** 2) / (2 * torch.exp(2 * l1)) - .5).sum(1).mean()
    a, b = torch.log_softmax(mlp(P0, s0) * beta, 1), torch.log_softmax(mlp(P1, s) * beta, 1)
    return (a.exp() * (a - b)).sum(1).mean()


def cat(P):
    return torch.cat([x.detach().flatten() for x in P])


class StateTap:
    """Order of the state batches shown to the policy network."""

    def __init__(self, pol):
        net = [nets_of(v)[0] for v in vars(pol).values() if isinstance(v, Regressor)][0]
        self.rows = []
        self.h = net.register_forward_pre_hook(lambda mod, a: self.rows.append(a[0].detach().clone()))

    def close(self):
        self.h.remove()
        return self.rows


class Chain:
    """Normalizations applied one after the other, each updated with the output of the one before."""

    def __init__(self, n, info):
        self.p = [StandardizationPreprocessor(info, backend='torch') for _ in range(n)]

    def __call__(self, x):
        for p in self.p:
            x = p(x)
        return x

    def update(self, x):
        for p in self.p:
            p.update(x)
            x = p(x)


def onpolicy(m, rng, algo, adim, gamma, lam, n, p_last, scale, beta, ent, eps, epochs, batch, max_norm, pre, fits, backend, cg, max_kl, hist, strict=False, nls=8):
    seed_all(int(rng.randint(2 ** 31)))
    na = 3 if beta is not None else None
    act = Discrete(na) if na else Box(-5., 5., shape=(adim,), data_type=torch.float32)
    info = MDPInfo(Box(-10., 10., shape=(SD,), data_type=torch.float32), act, gamma, 100, backend='torch')
    std = float(rng.choice([.3, .7, 1.5]))
    pol = GaussianTorchPolicy(MLP, (SD,), (adim,), std_0=std, n_features=6) if na is None else \
        BoltzmannTorchPolicy(MLP, (SD,), (na,), beta, n_features=6)
    lr = .01 if algo == 'a2c' and max_norm else .002 if algo != 'a2c' or scale < 2 else .0005
    vpar = dict(network=MLP, optimizer=sgd(.01), loss=F.mse_loss, input_shape=(SD,), output_shape=(1,))
    if algo == 'a2c':
        ag = A2C(info, pol, sgd(lr), vpar, ent_coeff=ent, max_grad_norm=max_norm)
    elif algo == 'ppo':
        ag = PPO(info, pol, sgd(lr), vpar, n_epochs_policy=epochs, batch_size=batch, eps_ppo=eps, lam=lam, ent_coeff=ent)
    else:
        ag = TRPO(info, pol, vpar, ent_coeff=ent, max_kl=max_kl, lam=lam, n_epochs_cg=cg, n_epochs_line_search=nls)
    if pre:
        for _ in range(int(pre)):
            ag.add_agent_preprocessor(StandardizationPreprocessor(info, backend='torch'))
    V = [v for v in vars(ag).values() if isinstance(v, Regressor)][0]
    calls = record_fit(V)
    st = Rows(rng, adim, p_last, scale, na)
    mean, cnt, sq = np.zeros(SD), 0, np.zeros(SD)
    allrows = []
    moved = 0
    for f in range(fits):
        if algo == 'a2c':
            st.cur = None
        b = st.block(n)
        if algo == 'a2c':           # episodes cut by the time limit inside a block: known finding of C16
            b[5][:-1] = b[4][:-1]
        s, a, r, nx, ab, la = [torch.as_tensor(x) for x in b]
        P0 = pol_params(pol)
        v0 = clone(V)[0]
        allrows.append(b[0])
        s_old, s_in, nx_in = s, s, nx
        if pre:
            p0 = Chain(pre, info)
            for x in allrows[:-1]:
                p0.update(torch.as_tensor(x))
            s_old = t32(p0(s))
            p0.update(s)
            s_in, nx_in = t32(p0(s)), t32(p0(nx))
            m.event('preprocessed_fits')
        with torch.no_grad():       # the block was collected by the policy itself
            if na is None:
                b[1][:] = (mlp(P0, s_old) + P0[4].exp() * torch.as_tensor(rng.randn(n, adim).astype(np.float32))).numpy()
            else:
                b[1][:] = [[rng.choice(na, p=q / q.sum())] for q in torch.softmax(mlp(P0, s_old) * beta, 1).double().numpy()]
        calls.clear()
        tap = StateTap(pol)
        try:
            ag.fit(ds_of(b, backend, gamma))
        except (AssertionError, ValueError):
            # with an updating preprocessor the divergence is not at its minimum and its curvature may be negative: not claimed
            if algo == 'trpo' and pre:
                m.event('trpo_indefinite')
                return
            raise
        finally:
            rows = tap.close()
        with torch.no_grad():
            v, vn = fvec(v0(s_in)), fvec(v0(nx_in))
        if algo == 'a2c':
            tv = mc_ref(fvec(r), np.asarray(ab), np.asarray(la), vn, gamma)
            adv = tv - v
        else:
            g = gae_ref(v, vn, fvec(r), np.asarray(ab), np.asarray(la), gamma, lam)
            tv = g + v
            adv = (g - g.mean()) / (g.std(ddof=1) + 1e-8)
        m.ok(len(calls) >= 1, 'value-function-not-fitted', algo)
        near(m, calls[0][0][0], s_in, 'value-fit-states', algo)
        near(m, calls[0][0][1], tv, 'value-fit-targets', f'{algo} gamma {gamma} lambda {lam}', atol=1e-4)
        m.event('value_targets')
        A = t32(adv)
        P1 = pol_params(pol)
        if algo == 'a2c':
            loss = -(logp(P0, s_in, a, beta) * A).mean() - ent * entropy(P0, s_in, beta)
            want, cl = step_of(P0, loss, lr, max_norm)
            near_step(m, cat(P1), cat(want), cat(P0), 'actor-step', f'a2c entropy coefficient {ent} max norm {max_norm}')
            m.event('clipped_gradients', int(cl))
            m.event('a2c_steps')
        elif algo == 'ppo':
            with torch.no_grad():
                olp = logp(P0, s_old, a, beta)
            ids = {x.numpy().tobytes(): i for i, x in enumerate(s_in)}
            mb = []
            for x in rows:
                ix = [ids.get(q.numpy().tobytes()) for q in x] if x.dim() == 2 else [None]
                mb.append(None if None in ix else ix)
            want_size = min(batch, n) if batch else n
            # the first evaluations are of the whole block (old distribution); the minibatches follow in order
            if want_size >= n:
                seq = [list(range(n))] * epochs
            else:
                per = -(-n // batch)
                raw = [ix for ix in mb if ix is not None and len(ix) != n]
                # every minibatch is shown to the network the same number of times (log probability, entropy)
                m.ok(len(raw) >= per * epochs and len(raw) % (per * epochs) == 0, 'number-of-minibatches',
                     f'{n} rows in batches of {batch}, {epochs} epochs, {len(raw)} evaluations')
                c = len(raw) // (per * epochs)
                seq = raw[::c]
                for e in range(epochs):
                    m.eq(sorted(sum(seq[e * per:(e + 1) * per], [])), list(range(n)), 'minibatches-partition-the-data', f'epoch {e}')
            P = [p.detach().clone().requires_grad_(True) for p in P0]
            for ix in seq:
                ratio = torch.exp(logp(P, s_in[ix], a[ix], beta) - olp[ix])
                loss = -torch.min(ratio * A[ix], torch.clamp(ratio, 1 - eps, 1 + eps) * A[ix]).mean() - ent * entropy(P, s_in[ix], beta)
                P, _ = step_of(P, loss, lr)
                P = [p.requires_grad_(True) for p in P]
                m.event('ppo_minibatches')
            near_step(m, cat(P1), cat(P), cat(P0), 'policy-steps', f'ppo {epochs} epochs batch {batch} clip {eps}', rel=2e-2)
        else:
            with torch.no_grad():
                olp = logp(P0, s_old, a, beta)
            sur = lambda P: (torch.exp(logp(P, s_in, a, beta) - olp) * A).mean() + ent * entropy(P, s_in, beta)
            old = [p.detach() for p in P0]
            same = torch.equal(cat(P0), cat(P1))
            m.event('trpo_fits')
            if not same:
                moved += 1
                with torch.no_grad():
                    # with a preprocessor the old policy is the one that saw the states as they were normalized then
                    kl = float(kl_old_new(P0, P1, s_in, beta, s_old))
                    m.ok(kl <= 1.5 * max_kl * 1.001 + 1e-6, 'trust-region', f'divergence {kl} limit {max_kl}')
                    d = float(sur(P1) - sur(P0))
                    m.ok(d >= -1e-5 * (1 + abs(float(sur(P0)))), 'surrogate-worse', str(d))
            if not pre:
                trpo_exact(m, P0, P1, s_in, sur, beta, max_kl, cg, strict, nls)
    if algo == 'trpo' and fits >= 3 and not pre and nls >= 8 and max_kl < .5:
        m.ok(moved > 0, 'policy-never-updated', f'{fits} fits')
    m.seen(algo, adim, beta, pre, ent != 0, backend, epochs, bool(max_norm))


def conjugate(g, fvp, n, shared):
    """Conjugate gradient for fvp(x) = g. shared: the first residual and the first direction are one array (known finding)."""
    p, r, x = g.clone(), g.clone(), torch.zeros_like(g)
    r2 = r.dot(r)
    for i in range(n):
        z = fvp(p)
        v = r2 / p.dot(z)
        x = x + v * p
        r = r - v * z
        n2 = r.dot(r)
        p = r + n2 / r2 * (r if shared and i == 0 else p)
        r2 = n2
        if r2 < 1e-10:
            break
    return x


def trpo_exact(m, P0, P1, s, sur, beta, max_kl, cg, strict, nls=8):
    """The step is the conjugate gradient direction scaled to the divergence limit, halved until it qualifies."""
    g = torch.cat([x.flatten() for x in torch.autograd.grad(sur(P0), P0)]).detach()
    ref = [p.detach() for p in P0]

    def fvp(v):
        kl = kl_old_new(ref, P0, s, beta)
        gk = torch.cat([x.flatten() for x in torch.autograd.grad(kl, P0, create_graph=True)])
        return torch.cat([x.flatten() for x in torch.autograd.grad((gk * v).sum(), P0)]).detach() + DAMP * v
    d = cat(P1) - cat(P0)
    stay = float(d.norm()) == 0
    found = []
    for shared in (False, True):
        x = conjugate(g, fvp, cg, shared)
        full = x / torch.sqrt(.5 * x.dot(fvp(x)) / max_kl)
        if stay:
            found.append(full)
            continue
        sz = float(d.dot(full) / full.dot(full))
        k = int(round(-np.log2(max(sz, 1e-9))))
        err = float((d - full * .5 ** k).abs().max()) / (float(full.abs().max()) * .5 ** k + 1e-6)
        found.append((err, sz, k, full))
    shape = [p.shape for p in P0]

    def at(x):
        o, i = [], 0
        for q in shape:
            o.append(x[i:i + q.numel()].reshape(q))
            i += q.numel()
        return o

    def refused(full, j):
        with torch.no_grad():
            c = at(cat(P0) + full * .5 ** j)
            kl, imp = float(kl_old_new(ref, c, s, beta)), float(sur(c) - sur(P0))
        return not np.isfinite(kl + imp) or kl > 1.5 * max_kl * .999 - 1e-6 or imp < (1e-5 if max_kl < .5 else 1e-3), f'fraction {.5 ** j} kl {kl} gain {imp}'
    if stay:
        # the parameters stay only if no step of the backtracking sequence qualifies, up to rounding at the border
        m.event('trpo_refused')
        if cg == 1 and all(bool(torch.isfinite(x).all()) for x in found):
            for j in range(nls):
                ok, why = refused(found[0], j)
                m.ok(ok, 'line-search-refused-a-valid-step', why)
        return
    if strict:
        m.ok(found[0][0] < .02, 'trpo-conjugate-directions', f'{cg} iterations, relative error {found[0][0]}')
        m.event('trpo_strict')
        return
    err, sz, k, full = min(found, key=lambda q: q[0])
    m.ok(err < (2e-3 if max_kl < .5 else 2e-2), 'natural-step', f'step fraction {sz}, {cg} iterations, relative error {err}')
    m.event('trpo_exact_steps' if cg == 1 else 'trpo_conjugate_steps')
    m.ok(k < nls, 'line-search-too-long', f'{k} halvings of {nls}')
    for j in range(k):          # larger steps of the backtracking sequence must have been refused for a reason
        ok, why = refused(full, j)
        m.ok(ok, 'line-search-refused-a-valid-step', why)


DAMP = 1e-2


def direction(m, rng):
    for cg in (2, 3, 4):
        onpolicy(m, rng, 'trpo', 2, .9, .95, 30, .1, 1., None, 0., .2, 1, 7, None, False, 4, 'torch', cg, .01, None, strict=True)


def recurrent(m, rng, n, T, gamma, lam, p_last, fits, ent, eps, epochs, pre=False):
    """Recurrent PPO: sequences are true histories of one episode, targets and steps are recomputed on them."""
    from mushroom_rl.policy import RecurrentGaussianTorchPolicy
    seed_all(int(rng.randint(2 ** 31)))
    adim, H, lr = 1, 3, .03
    info = MDPInfo(Box(-10., 10., shape=(SD,), data_type=torch.float32), Box(-5., 5., shape=(adim,), data_type=torch.float32), gamma, 100, backend='torch')
    pol = RecurrentGaussianTorchPolicy(network=RNNActor, policy_state_shape=(H,), input_shape=(SD,), output_shape=(adim,), std_0=.7)
    ag = PPO_BPTT(info, pol, sgd(lr), dict(network=RNNCritic, optimizer=sgd(.01), loss=F.mse_loss, input_shape=(SD,), output_shape=(1,)),
                  n_epochs_policy=epochs, batch_size=10 ** 6, eps_ppo=eps, lam=lam, dim_env_state=SD, ent_coeff=ent, truncation_length=T)
    if pre:
        for _ in range(pre):
            ag.add_agent_preprocessor(StandardizationPreprocessor(info, backend='torch'))
        pp = Chain(pre, info)
    V = [v for v in vars(ag).values() if isinstance(v, Regressor)][0]
    calls = record_fit(V)
    st = Rows(rng, adim, p_last, 1.)
    for f in range(fits):
        st.cur = None
        b = st.block(n)
        s, a, r, nx, ab, la = [torch.as_tensor(x) for x in b]
        so = s
        if pre:
            so = t32(pp(s))
            pp.update(s)
            s, nx = t32(pp(s)), t32(pp(nx))
            m.event('recurrent_preprocessed')
        ps, nps = rng.randn(n, H).astype(np.float32), rng.randn(n, H).astype(np.float32)
        for i in range(n - 1):
            if not la[i]:
                ps[i + 1] = nps[i]
        v0 = clone(V)[0]
        pol0 = copy_net([nets_of(v)[0] for v in vars(pol).values() if isinstance(v, Regressor)][0])
        names = [id(p) for p in pol.parameters()]
        P0 = pol_params(pol)
        calls.clear()
        ag.fit(ds_of(b, 'torch', gamma, ps=(ps, nps)))
        m.ok(len(calls) >= 1, 'value-function-not-fitted')
        S, PS, L, tgt = calls[0][0][:4]
        starts = []
        for i in range(n):
            j = i
            while j > 0 and not la[j - 1] and i - j + 1 < T:
                j -= 1
            starts.append(j)
        NS, SO = torch.zeros_like(S), torch.zeros_like(S)
        for i, j in enumerate(starts):
            m.eq(int(L[i]), i - j + 1, 'sequence-length', f'row {i}')
            m.ok(torch.allclose(S[i, :i - j + 1], s[j:i + 1], rtol=1e-5, atol=1e-6), 'sequence-content', f'row {i} from {j}')
            m.ok(np.array_equal(PS[i].numpy().ravel(), ps[j]), 'sequence-memory', f'row {i} from {j}')
            NS[i, :i - j + 1] = nx[j:i + 1]
            SO[i, :i - j + 1] = so[j:i + 1]
            m.event('recurrent_rows')
        NPS = torch.as_tensor(nps[starts])
        with torch.no_grad():
            v, vn = fvec(v0(S, PS, L)), fvec(v0(NS, NPS, L))
        g = gae_ref(v, vn, fvec(r), np.asarray(ab), np.asarray(la), gamma, lam)
        near(m, tgt, g + v, 'recurrent-value-targets', '', atol=1e-4)
        A = t32((g - g.mean()) / (g.std(ddof=1) + 1e-8))
        # policy steps on the whole block
        net = pol0
        nparams = list(net.parameters())
        extra = [p for p in P0 if not any(p.shape == q.shape and torch.equal(p, q) for q in nparams)]
        m.eq(len(extra), 1, 'harness-log-std')
        ls = extra[0].clone().detach().requires_grad_(True)

        def lpf(S=S):
            mu = net(S, PS, L)[0]
            return (-.5 * ((a - mu) / ls.exp()) ** 2 - ls - .5 * np.log(2 * np.pi)).sum(1)
        olp = lpf(SO).detach()
        for _ in range(epochs):
            ratio = torch.exp(lpf() - olp)
            loss = -torch.min(ratio * A, torch.clamp(ratio, 1 - eps, 1 + eps) * A).mean() - ent * (ls + .5 * np.log(2 * np.pi * np.e)).sum()
            gr = torch.autograd.grad(loss, nparams + [ls])
            with torch.no_grad():
                for p, q in zip(nparams + [ls], gr):
                    p -= lr * q
        P1 = [p.detach() for p in pol.parameters()]
        want = nparams + [ls]
        for p in P1:
            c = [q for q in want if q.shape == p.shape]
            m.ok(any(torch.allclose(p, q, rtol=1e-4, atol=1e-5) for q in c), 'recurrent-policy-steps', f'shape {tuple(p.shape)}')
        m.event('recurrent_steps')
    m.seen('recurrent', T, n > 20, ent != 0)


def cases(tier, rng):
    N = 1 if tier == 'quick' else 10
    c = lambda *x: x[int(rng.randint(len(x)))]
    for i in range(90 * N):
        algo = ('ddpg', 'td3', 'sac')[i % 3]
        o = {}
        if rng.rand() < .4:
            o['clip'] = c(.05, .5, 100.)
        if algo == 'td3':
            if rng.rand() < .6:
                o.update(noise_std=c(0., .1, 1.), noise_clip=c(.05, .3, 2.))
        if algo == 'sac':
            if rng.rand() < .5:
                o['use_log_alpha_loss'] = True
            if rng.rand() < .4:
                o['target_entropy'] = c(-3., .5)
            if rng.rand() < .4:
                a, b = c((-1., -.5), (-1., 0.), (-.1, .2), (.1, .5))
                o.update(log_std_min=a, log_std_max=b)
        yield offpolicy, dict(algo=algo, adim=c(1, 2), gamma=c(0., .5, .9, 1.), tau=c(.01, .3, 1.), batch=c(2, 5, 9), init=c(3, 8), cap=c(12, 40),
                              delay=c(1, 2, 3), warmup=c(0, 10, 15), p_last=c(.1, .5), scale=c(1., 10.),
                              blocks=[int(x) for x in rng.randint(1, 5, 16)], opts=o, backend=c('torch', 'numpy'))
    yield direction, dict()
    for i in range(4 * N):
        yield td3_noise, dict(std=c(.1, .2, .5), clip=c(.1, .3, 1.))
    for i in range(120 * N):
        algo = ('a2c', 'ppo', 'trpo')[i % 3]
        yield onpolicy, dict(algo=algo, adim=c(1, 2), gamma=c(.5, .9, .99), lam=c(0., .5, .95, 1.), n=int(rng.randint(4, 40)), p_last=c(.05, .2),
                             scale=c(1., 10.), beta=c(None, None, 1., .3), ent=c(0., 0., .01, .2), eps=c(.05, .2), epochs=c(1, 2, 4), batch=c(3, 7, 50),
                             max_norm=c(None, .05, 10.), pre=int(rng.rand() < dict(ppo=.35, trpo=.2, a2c=0)[algo]) * c(1, 1, 2, 3), fits=4, backend='torch', cg=c(1, 1, 2, 3, 5, 10),
                             max_kl=c(.001, .01, .1), hist=None)
    for i in range(12 * N):     # wide trust regions: the line search has to refuse steps, some fits find none
        yield onpolicy, dict(algo='trpo', adim=c(1, 2), gamma=.9, lam=c(.5, 1.), n=int(rng.randint(4, 30)), p_last=.1,
                             scale=c(1., 10.), beta=c(None, None, 1.), ent=c(0., .2), eps=.2, epochs=1, batch=7,
                             max_norm=None, pre=False, fits=5, backend='torch', cg=c(1, 1, 1, 3), max_kl=c(.5, 2.), hist=None, nls=c(1, 2, 3, 8))
    for i in range(24 * N):
        yield recurrent, dict(n=int(rng.randint(3, 40)), T=c(1, 2, 4, 7), gamma=c(.5, .99), lam=c(0., .7, 1.), p_last=c(.05, .3), fits=2, ent=c(0., .1),
                              eps=c(.05, .2), epochs=c(1, 3), pre=c(0, 0, 1, 2))
