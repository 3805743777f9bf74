import inspect
import numpy as np
import torch
import torch.nn.functional as F
from mushroom_rl.algorithms.value import (DQN, DoubleDQN, AveragedDQN, MaxminDQN, DuelingDQN, CategoricalDQN, NoisyDQN,
                                          QuantileDQN, Rainbow)
from mushroom_rl.approximators.parametric import NumpyTorchApproximator
from mushroom_rl.core import Dataset, MDPInfo
from mushroom_rl.policy import EpsGreedy
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.replay_memory import ReplayMemory, PrioritizedReplayMemory
from mushroom_rl.rl_utils.spaces import Box, Discrete
from vlib.nets import *
from vlib.data import dataset
from checks.c10 import nstep

PROPERTY = 'C13'
RULE = ('every deep Q variant fed with random chunks of transitions of uniquely identifiable states (terminal, truncated, '
        'wide rewards; clipping on/off; replay and prioritized memories, small and wrapping; batch sizes 2-9; n-step 1-3 for '
        'Rainbow; plain SGD so that a step can be recomputed); at each fit the recorded regression call is compared with the '
        'target recomputed from copies of the networks taken before the fit, and the parameters with the recomputed step')
NEED = dict(configured_fits=200, fits=2500, regressions=1800, not_ready=250, terminal_targets=1500, clipped=1500, steps_recomputed=1200,
            weights_checked=400, td_updates=400, nstep_targets=300, dqn=80, double=80, averaged=80, maxmin=80, dueling=80,
            categorical=80, noisy=80, quantile=80, rainbow=80, forward_checked=500, edge_atoms=50, double_disagrees=50)
ASSUMPTIONS = ['noise scales of noisy layers are frozen at zero for the target comparison (their effect is checked separately)']
KINDS = ['dqn', 'double', 'averaged', 'maxmin', 'dueling', 'categorical', 'noisy', 'quantile', 'rainbow']


class Rows:
    def __init__(self, rng, sdim, na, p_last, scale):
        self.rng, self.sdim, self.na, self.p_last, self.scale = rng, sdim, na, p_last, scale
        self.cur = None

    def rows(self, n):
        out = []
        for _ in range(n):
            if self.cur is None:
                self.cur = self.rng.randn(self.sdim).astype(np.float32).astype(float)
            s, nx = self.cur, self.rng.randn(self.sdim).astype(np.float32).astype(float)
            la = bool(self.rng.rand() < self.p_last)
            ab = la and bool(self.rng.rand() < .6)
            out.append(dict(s=s, a=np.array([int(self.rng.randint(self.na))]), n=nx, ab=ab, last=la, ps=None, nps=None,
                            r=float(np.round(self.rng.randn() * self.scale, 3))))
            self.cur = None if la else nx
        return out


def key(s):
    return np.asarray(s, dtype=np.float32).tobytes()


def info(sdim, na, gamma):
    return MDPInfo(Box(-10., 10., shape=(sdim,)), Discrete(na), gamma, 100)


def t32(x):
    return torch.as_tensor(np.asarray(x, dtype=np.float32))


class GainNet(QNet):
    """The values are scaled by an argument of the forward pass (what fit_params and predict_params are for)."""

    def forward(self, state, action=None, gain=1.):
        return super().forward(state, action) * gain


def mods(net, pred):
    return [x for x in net.modules() if pred(x)]


def ref_forward(kind, net, s, z=None):
    """Values (and distribution/quantiles) the network must output for states s, from its layers' parameters."""
    x = t32(s)
    if isinstance(net, QNet):
        return net(x), None
    f = mods(net, lambda k: isinstance(k, FeatNet))[0](x)
    lin = [k for k in net.modules() if isinstance(k, torch.nn.Linear) and k.in_features == f.shape[1]
           and not any(k is q.h for q in mods(net, lambda k: isinstance(k, FeatNet)))]
    noisy = mods(net, lambda k: hasattr(k, 'mu_weight'))
    nl = lambda k: F.linear(f, k.mu_weight, k.mu_bias)
    if kind == 'dueling':
        V = [k for k in lin if k.out_features == 1][0]
        A = [k for k in lin if k.out_features != 1][0]
        a = A(f)
        return V(f) + a - a.mean(1, keepdim=True), None
    if kind == 'dueling_max':
        V = [k for k in lin if k.out_features == 1][0]
        A = [k for k in lin if k.out_features != 1][0]
        a = A(f)
        return V(f) + a - a.max(1, keepdim=True)[0], None
    if kind == 'noisy':
        return nl(noisy[0]), None
    if kind == 'categorical':
        p = torch.stack([torch.softmax(k(f), -1) for k in lin], 1)
        return p @ t32(z), p
    if kind == 'quantile':
        p = torch.stack([k(f) for k in lin], 1)
        return p.mean(-1), p
    if kind == 'rainbow':
        v, a = nl(noisy[0]).unsqueeze(1), torch.stack([nl(k) for k in noisy[1:]], 1)
        p = torch.softmax(v + a - a.mean(1, keepdim=True), -1)
        return p @ t32(z), p


def project(r, g, z, p):
    """Categorical projection of r + g*z with probabilities p onto the atoms z."""
    vmin, vmax, n = z[0], z[-1], len(z)
    out = np.zeros(n)
    for zi, pi in zip(z, p):
        t = min(max(r + g * zi, vmin), vmax)
        pos = (t - vmin) / (vmax - vmin) * (n - 1)
        lo = min(int(np.floor(pos)), n - 2)
        w = pos - lo
        out[lo] += pi * (1 - w)
        out[lo + 1] += pi * w
    return out


def loss_of(kind, net, s, a, y, w, z, gain=1.):
    q, p = ref_forward(kind, net, s, z)
    q = q * gain
    idx = torch.as_tensor(a, dtype=torch.int64).reshape(-1)
    B = torch.arange(len(idx))
    y = t32(y)
    if kind in ('categorical', 'rainbow'):
        l = -(y * torch.log(p[B, idx].clamp(1e-5))).sum(1)
    elif kind == 'quantile':
        th = p[B, idx]
        N = th.shape[1]
        tau = (torch.arange(N) + .5) / N
        u = y.unsqueeze(1) - th.unsqueeze(2)                 # [b, i (prediction), j (target)]
        hub = torch.where(u.abs() < 1, .5 * u ** 2, u.abs() - .5)
        return ((tau.reshape(1, -1, 1) - (u < 0).float()).abs() * hub).mean()
    else:
        u = q[B, idx] - y
        l = torch.where(u.abs() < 1, .5 * u ** 2, u.abs() - .5)
    if w is None:
        return l.mean()
    w = t32(w)
    return (l * w).sum() / w.sum()


def run(m, rng, kind, na, sdim, gamma, batch, init, cap, clip, prio, freq, n_ens, n_atoms, vmax, nsr, ops, p_last, avg, scale, lr, pgain=None, fgain=None, epochs=None):
    np.random.seed(int(rng.randint(2 ** 31)))
    torch.manual_seed(int(rng.randint(2 ** 31)))
    mi = info(sdim, na, gamma)
    pol = EpsGreedy(Parameter(.1))
    ap = dict(network=FeatNet if kind not in ('dqn', 'double', 'averaged', 'maxmin') else GainNet,
              optimizer={'class': torch.optim.SGD, 'params': {'lr': lr}}, loss=F.smooth_l1_loss,
              input_shape=(sdim,), output_shape=(na,), n_actions=na, n_features=6)
    kw = dict(approximator_params=ap, batch_size=batch, initial_replay_size=init, max_replay_size=cap,
              target_update_frequency=freq, clip_reward=clip)
    if pgain is not None:
        kw['predict_params'] = dict(gain=pgain)
    fp = {k: v for k, v in (('gain', fgain), ('n_epochs', epochs)) if v is not None}
    if fp:
        kw['fit_params'] = dict(fp)
    p_alpha, p_beta = .6, .5
    if prio and kind != 'rainbow':
        kw['replay_memory'] = {'class': PrioritizedReplayMemory, 'params': dict(alpha=p_alpha, beta=p_beta)}
    vmin = -vmax * .7
    z = np.linspace(vmin, vmax, n_atoms)
    if kind in ('dqn', 'double'):
        ag = dict(dqn=DQN, double=DoubleDQN)[kind](mi, pol, NumpyTorchApproximator, **kw)
    elif kind in ('averaged', 'maxmin'):
        ag = dict(averaged=AveragedDQN, maxmin=MaxminDQN)[kind](mi, pol, NumpyTorchApproximator, n_approximators=n_ens, **kw)
    elif kind == 'dueling':
        ag = DuelingDQN(mi, pol, avg_advantage=avg, **kw)
    elif kind == 'noisy':
        ag = NoisyDQN(mi, pol, **kw)
    elif kind == 'quantile':
        kw['approximator_params'].pop('loss')
        ag = QuantileDQN(mi, pol, n_quantiles=n_atoms, **kw)
    else:
        kw['approximator_params'].pop('loss')
        if kind == 'categorical':
            ag = CategoricalDQN(mi, pol, n_atoms=n_atoms, v_min=vmin, v_max=vmax, **kw)
        else:
            ag = Rainbow(mi, pol, n_atoms=n_atoms, v_min=vmin, v_max=vmax, n_steps_return=nsr, alpha_coeff=p_alpha,
                         beta=Parameter(p_beta), **kw)
    fk = kind + '_max' if kind == 'dueling' and not avg else kind
    if kind in ('noisy', 'rainbow'):
        x = t32(rng.randn(3, sdim))
        net = nets_of(ag.approximator)[0]
        a1, a2 = net(x), net(x)
        m.ok(not torch.equal(a1, a2), 'noisy-layer-not-noisy')
        for layer in net.modules():             # published initialization of the noise scale
            if hasattr(layer, 'sigma_weight') and hasattr(layer, 'mu_weight'):
                fan = layer.mu_weight.shape[1] ** .5
                m.close(layer.sigma_weight.detach(), torch.full_like(layer.sigma_weight, .5 / fan), 'noisy-initial-scale', '', rtol=1e-5, atol=0)
                m.ok(float(layer.mu_weight.abs().max()) <= 1 / fan + 1e-6, 'noisy-initial-mean')
        for reg in (ag.approximator, ag.target_approximator):
            for nt in nets_of(reg):
                for nm, p_ in nt.named_parameters():
                    if 'sigma' in nm:
                        p_.data.zero_()
                        p_.requires_grad_(False)
    calls, gets, updates = [], [], []
    real_fit = ag.approximator.fit

    def fit(*a, **k):
        calls.append(([np.array(x) for x in a], dict(k)))
        return real_fit(*a, **k)
    ag.approximator.fit = fit

    def patched(cls, name, store):
        f = getattr(cls, name)

        def g(self, *a, **k):
            o = f(self, *a, **k)
            b = inspect.signature(f).bind(self, *a, **k)
            store.append((b.args[1:], o))
            return o
        setattr(cls, name, g)
        return f
    saved = [(c, nm, patched(c, nm, st)) for c, nm, st in
             ((ReplayMemory, 'get', gets), (PrioritizedReplayMemory, 'get', gets), (PrioritizedReplayMemory, 'update', updates))]
    try:
        _drive(m, rng, ag, kind, fk, na, sdim, gamma, batch, init, cap, clip, prio or kind == 'rainbow', n_ens, z, nsr, ops,
               p_last, calls, gets, updates, freq, scale, lr, pgain or 1., fgain or 1., epochs or 1)
    finally:
        for c, nm, f in saved:
            setattr(c, nm, f)


def _drive(m, rng, ag, kind, fk, na, sdim, gamma, batch, init, cap, clip, prio, n_ens, z, nsr, ops, p_last, calls, gets, updates,
           freq, scale, lr, pgain, fgain, epochs):
    def rf(*a):
        q, p = ref_forward(*a)
        return q * pgain, p
    for reg in (ag.approximator, ag.target_approximator):
        want_n = n_ens if kind == 'maxmin' or (kind == 'averaged' and reg is ag.target_approximator) else 1
        m.eq(len(nets_of(reg)), want_n, 'number-of-networks', kind)
    st = Rows(rng, sdim, na, p_last, scale)
    held = []
    nsr = nsr if kind == 'rainbow' else 1
    n_fit = n_learn = 0
    used = np.zeros(8)
    fitted = 1
    for _ in range(ops):
        ch = st.rows(int(rng.randint(1, 4 + nsr)))
        new = nstep(ch, nsr, gamma)
        held = (held + new)[-cap:]
        on0, tg0 = clone(ag.approximator), clone(ag.target_approximator)
        del calls[:], gets[:], updates[:]
        ds = dataset(ch, 'numpy', sdim, 1, adt='i')
        snap = [np.array(x) for x in ds.parse()]
        ag.fit(ds)
        for u, v in zip(snap, ds.parse()):
            m.eq(np.array(v), u, 'data-modified')
        m.event('fits')
        n_fit += 1
        ready = len(held) > init
        m.eq(len(calls), 1 if ready else 0, 'one-regression-per-fit-once-ready', f'{len(held)} stored, initial size {init}')
        if not ready:
            m.event('not_ready')
            for a_, b_ in zip(on0, nets_of(ag.approximator)):
                m.eq(flat(b_), flat(a_), 'network-changed-before-ready')
            if kind == 'averaged' and n_fit % freq == 0:
                fitted = min(fitted + 1, n_ens)
            continue
        n_learn += 1
        m.event('regressions')
        m.event(kind)
        (args, kwv) = calls[0]
        s, a, y = args
        m.eq(len(s), batch, 'batch-size')
        tab = {}
        for q in held:
            tab[key(q['s'])] = q
        rows = []
        for i in range(batch):
            m.ok(key(s[i]) in tab, 'sample-not-in-memory')
            rows.append(tab[key(s[i])])
            m.eq(int(np.ravel(a[i])[0]), int(rows[-1]['a'][0]), 'action-of-sample')
        nx = np.array([q['n'] for q in rows])
        r = np.array([q['r'] for q in rows])
        ab = np.array([float(q['ab']) for q in rows])
        m.event('terminal_targets', int(ab.sum()))
        if clip:
            m.event('clipped', int((np.abs(r) > 1).sum()))
            r = np.clip(r, -1, 1)
        with torch.no_grad():
            if kind in ('dqn', 'dueling', 'noisy'):
                v = rf(fk, tg0[0], nx)[0].numpy().max(1)
                want = r + gamma * (1 - ab) * v
            elif kind == 'double':
                qo = rf(fk, on0[0], nx)[0].numpy()
                qt = rf(fk, tg0[0], nx)[0].numpy()
                want = r + gamma * (1 - ab) * qt[np.arange(batch), qo.argmax(1)]
                m.event('double_disagrees', int((qo.argmax(1) != qt.argmax(1)).sum()))
            elif kind == 'averaged':
                v = np.mean([rf(fk, k, nx)[0].numpy() for k in tg0[:fitted]], axis=0).max(1)
                want = r + gamma * (1 - ab) * v
            elif kind == 'maxmin':
                v = np.min([rf(fk, k, nx)[0].numpy() for k in tg0], axis=0).max(1)
                want = r + gamma * (1 - ab) * v
            elif kind == 'quantile':
                q, p = [k.numpy() for k in rf(fk, tg0[0], nx)]
                want = r[:, None] + gamma * (1 - ab)[:, None] * p[np.arange(batch), q.argmax(1)]
            else:
                sel = tg0[0] if kind == 'categorical' else on0[0]
                q = rf(fk, sel, nx, z)[0].numpy()
                p = rf(fk, tg0[0], nx, z)[1].numpy()[np.arange(batch), q.argmax(1)]
                g = gamma ** nsr * (1 - ab)
                want = np.array([project(r[i], g[i], z, p[i]) for i in range(batch)])
                m.event('edge_atoms', int(((r + g * z[-1] > z[-1]) | (r + g * z[0] < z[0])).sum()))
                m.close(y.sum(1), np.ones(batch), 'target-distribution-sums-to-one', rtol=1e-4, atol=1e-4)
            # the library's own networks produce what their layers define
            pr = nets_of(ag.target_approximator)[0]
            m.close(pr(t32(nx[:4])).detach().numpy(), ref_forward(fk, pr, nx[:4], z)[0].numpy(), 'network-forward', kind, rtol=1e-4, atol=1e-4)
            m.event('forward_checked')
        if kind == 'averaged' and n_fit % freq == 0:
            fitted = min(fitted + 1, n_ens)
        if nsr > 1:
            m.event('nstep_targets', batch)
        if kind in ('double', 'quantile', 'categorical', 'rainbow'):
            srt = np.sort(qo if kind == 'double' else q, axis=1)
            amb = (srt[:, -1] - srt[:, -2]) < 1e-4      # greedy action not determined at float precision: accept
            want[amb] = np.asarray(y)[amb]
            m.event('ambiguous_rows_skipped', int(amb.sum()))
        m.close(y, want, 'published-target', f'{kind} gamma={gamma} clip={clip}', rtol=3e-4, atol=3e-4)
        w = None
        if prio:
            w = np.array(gets[-1][1][-1], dtype=float)
            got_w = kwv.get('weights')
            m.ok(got_w is not None, 'importance-weights-not-used')
            m.close(np.array(got_w, dtype=float), w, 'importance-weights', rtol=1e-6)
            m.event('weights_checked')
            m.eq(len(updates), 1, 'priorities-updated-once')
            err, idxs = updates[0][0]
            m.eq(np.array(idxs), np.array(gets[-1][1][-2]), 'priorities-of-the-sampled-entries')
            with torch.no_grad():
                q0, p0 = rf(fk, on0[0] if kind != 'maxmin' else on0[0], s, z)
                ai = np.ravel(a).astype(int)
                if kind == 'rainbow':
                    we = -(want * np.log(np.clip(p0.numpy()[np.arange(batch), ai], 1e-5, None))).sum(1)
                elif kind == 'maxmin':
                    we = want - np.min([rf(fk, k, s)[0].numpy() for k in on0], axis=0)[np.arange(batch), ai]
                else:
                    we = want - q0.numpy()[np.arange(batch), ai]
            m.close(np.abs(np.array(err, dtype=float)), np.abs(we), 'td-errors', rtol=1e-3, atol=1e-3)
            m.event('td_updates')
        else:
            m.ok(kwv.get('weights') is None, 'weights-without-prioritization')
        # recomputed gradient step
        on1 = nets_of(ag.approximator)
        ch_ = [i for i in range(len(on1)) if not np.array_equal(flat(on1[i]), flat(on0[i]))]
        if kind == 'maxmin':
            m.ok(len(ch_) <= 1, 'one-member-per-fit', str(ch_))
            used[ch_[0] if ch_ else 0] += 1
        i = ch_[0] if ch_ else 0
        net = on0[i]
        for _ in range(epochs):
            for p_ in net.parameters():
                p_.grad = None
            loss_of(fk, net, s, a, want, w, z, fgain).backward()
            with torch.no_grad():
                for p_ in net.parameters():
                    if p_.grad is not None and p_.requires_grad:
                        p_ -= lr * p_.grad
        if pgain != 1. or fgain != 1. or epochs != 1:
            m.event('configured_fits')
        m.close(flat(on1[i]), flat(net), 'regression-step', kind, rtol=2e-3, atol=2e-5)
        m.event('steps_recomputed')
        m.seen(kind, batch, clip, prio, int(ab.sum()), int(nsr))
    if kind == 'maxmin' and used.sum() > 30:
        n = used.sum()
        for i in range(n_ens):
            m.ok(abs(used[i] - n / n_ens) < 6.5 * np.sqrt(n / n_ens * (1 - 1 / n_ens)) + 1, 'ensemble-member-choice', str(used[:n_ens]))


def cases(tier, rng):
    n = 16 if tier == 'quick' else 150
    for kind in KINDS:
        for i in range(n):
            yield run, dict(kind=kind, na=int(rng.randint(2, 5)), sdim=int(rng.randint(1, 4)),
                            gamma=float(rng.choice([.5, .9, .99])), batch=int(rng.randint(2, 10)), init=int(rng.choice([3, 10, 14])),
                            cap=int(rng.choice([16, 33, 100])), clip=bool(i % 2), prio=bool(i % 3 == 0) if kind not in ('categorical', 'quantile') else False,
                            freq=int(rng.randint(1, 8)), n_ens=int(rng.randint(2, 5)), n_atoms=int(rng.choice([2, 5, 11, 51])),
                            vmax=float(rng.choice([1., 3., 10.])), nsr=int(rng.randint(1, 4)), ops=int(rng.choice([40, 70])),
                            p_last=float(rng.choice([.1, .3])), avg=bool(i % 4 != 3), scale=float(rng.choice([.6, 2.5])),
                            lr=float(rng.choice([.05, .3])),
                            pgain=float(rng.choice([.5, 2.])) if i % 4 == 1 and kind in ('dqn', 'double', 'averaged', 'maxmin') else None,
                            fgain=float(rng.choice([.5, 2.])) if i % 4 in (1, 2) and kind in ('dqn', 'double', 'averaged', 'maxmin') else None,
                            epochs=int(rng.choice([2, 3])) if i % 5 == 2 else None)
