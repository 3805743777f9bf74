import numpy as np
import torch
from mushroom_rl.approximators import Regressor
from mushroom_rl.core import Core
from vlib.agents import *

PROPERTY = 'C14'
RULE = ('every algorithm with target networks trained by the real Core on noisy toy environments with varied update periods '
        '(1-9), ensemble sizes, soft-update fractions (0..1), policy delays (1-4), warm-up lengths, fit lengths and memory '
        'sizes; all parameters of all networks are snapshotted before and after every fit and compared with the schedule')
NEED = dict(fits=4000, periodic_updates=400, periodic_quiet=1000, soft_updates=1200, policy_updates=500, policy_quiet=300,
            init_equal=150, averaged_members=40, warmup_quiet=40, online_moved=2000)


def fl(nets):
    return [flat(n) for n in nets]


def regs(ag):
    d = {k: v for k, v in vars(ag).items() if isinstance(v, Regressor)}
    t = {k: v for k, v in d.items() if 'target' in k}
    o = {}
    for k in t:
        base = k.replace('target_', '').replace('_target', '')
        cand = [n for n in d if n not in t and (n == base or n.strip('_') == base.strip('_'))]
        o[k] = d[cand[0]]
    return t, o


class Learned:
    """Counts the regressions of one regressor."""

    def __init__(self, reg):
        self.n = 0
        real = reg.fit

        def fit(*a, **k):
            self.n += 1
            return real(*a, **k)
        reg.fit = fit


def periodic(m, rng, kind, o, runs):
    seed_all(int(rng.randint(2 ** 31)))
    ag, env, kw = build(kind, o)
    freq = o['freq']
    on, tg = ag.approximator, ag.target_approximator
    w0 = fl(nets_of(on))
    t0 = fl(nets_of(tg))
    ens = len(w0) if kind == 'maxmin_dqn' else 1
    for i in range(len(t0)):
        m.eq(t0[i], w0[i % ens] if ens > 1 else w0[0], 'targets-start-equal', f'{kind} member {i}')
    m.event('init_equal')
    cnt = Learned(on)
    st = dict(n=0, order=[])
    real = ag.fit

    def fit(ds):
        tb, ob, before = fl(nets_of(tg)), fl(nets_of(on)), cnt.n
        real(ds)
        ta, oa = fl(nets_of(tg)), fl(nets_of(on))
        m.event('fits')
        learned = cnt.n - before
        m.ok(learned <= 1, 'more-than-one-regression')
        if learned:
            m.event('online_moved')
        if kind in ('categorical', 'quantile', 'rainbow'):
            st['n'] += learned
            due = learned and st['n'] % freq == 0
        else:
            st['n'] += 1
            due = st['n'] % freq == 0
        ch = [i for i in range(len(ta)) if not np.array_equal(ta[i], tb[i])]
        if not due:
            m.eq(ch, [], 'target-changed-off-schedule', f'{kind} step {st["n"]} period {freq}')
            m.event('periodic_quiet')
        elif kind == 'averaged':
            eq = [i for i in range(len(ta)) if np.array_equal(ta[i], oa[0])]
            m.ok(len(eq) >= 1, 'target-not-updated-on-schedule', f'step {st["n"]} period {freq}')
            m.ok(len(ch) <= 1, 'several-members-updated', str(ch))
            if ch:
                # a refresh of an unchanged online network leaves no trace and is recorded as None
                last = st['order'][-(len(ta) - 1):] if len(ta) > 1 else []
                m.ok(ch[0] not in last, 'not-the-oldest-member', f'{ch[0]} after {last}')
                m.eq(ta[ch[0]], oa[0], 'target-not-online')
                m.event('averaged_members')
            st['order'].append(ch[0] if ch else None)
            m.event('periodic_updates')
        else:
            for i in range(len(ta)):
                m.eq(ta[i], oa[i % ens] if ens > 1 else oa[0], 'target-not-updated-on-schedule', f'{kind} step {st["n"]} period {freq}')
            m.event('periodic_updates')
        m.seen(kind, freq, bool(due), bool(learned))
    ag.fit = fit
    core = Core(ag, env)
    for r in runs:
        core.learn(n_steps=r, n_steps_per_fit=o['per_fit'], quiet=True)


def pol_flat(ag):
    return np.concatenate([np.asarray(x, dtype=np.float64).ravel() for x in [ag.policy.get_weights()]])


def soft(m, rng, kind, o, runs):
    seed_all(int(rng.randint(2 ** 31)))
    ag, env, kw = build(kind, o)
    tau = o['tau']
    tgt, onl = regs(ag)
    m.ok(len(tgt) >= (2 if kind in ('ddpg', 'td3') else 1), 'harness-targets', str(list(tgt)))
    for k in tgt:
        for a, b in zip(fl(nets_of(tgt[k])), fl(nets_of(onl[k]))):
            m.eq(a, b, 'targets-start-equal', k)
    m.event('init_equal')
    crit = [v for k, v in onl.items() if 'critic' in k][0]
    cnt = Learned(crit)
    st = dict(n=0, stored=0)
    real = ag.fit

    def fit(ds):
        st['stored'] = min(st['stored'] + len(ds), o['cap'])
        tb = {k: fl(nets_of(v)) for k, v in tgt.items()}
        ob = {k: fl(nets_of(v)) for k, v in onl.items()}
        pb, c0 = pol_flat(ag), cnt.n
        real(ds)
        learned = cnt.n - c0
        ready = st['stored'] > o['init']
        m.eq(learned, int(ready), 'learning-step')
        pa = pol_flat(ag)
        m.event('fits')
        if not learned:
            m.eq(pa, pb, 'policy-changed-without-learning')
            for k in tgt:
                for a, b in zip(fl(nets_of(tgt[k])), tb[k]):
                    m.eq(a, b, 'target-changed-without-learning')
            return
        m.event('online_moved')
        for k in tgt:
            for a, b, w in zip(fl(nets_of(tgt[k])), tb[k], fl(nets_of(onl[k]))):
                m.close(a, tau * w.astype(np.float64) + (1 - tau) * b.astype(np.float64), 'soft-update', f'{kind} {k} tau={tau}', rtol=2e-6, atol=2e-6)
        m.event('soft_updates')
        if kind == 'sac':
            due = st['stored'] > o['warmup']
            m.event('warmup_quiet', int(not due))
        else:
            due = st['n'] % o['delay'] == 0
        if due:
            m.ok(not np.array_equal(pa, pb), 'policy-not-updated-on-schedule', f'{kind} critic update {st["n"] + 1} delay {o.get("delay")}')
            m.event('policy_updates')
        else:
            m.eq(pa, pb, 'policy-updated-off-schedule', f'{kind} critic update {st["n"] + 1} delay {o.get("delay")}')
            m.event('policy_quiet')
        for a, b in zip(fl(nets_of(crit)), ob[[k for k in onl if onl[k] is crit][0]]):
            m.ok(not np.array_equal(a, b), 'critic-not-updated')
        st['n'] += 1
        m.seen(kind, o.get('delay'), tau, due)
    ag.fit = fit
    core = Core(ag, env)
    for r in runs:
        core.learn(n_steps=r, n_steps_per_fit=o['per_fit'], quiet=True)


def cases(tier, rng):
    n = 16 if tier == 'quick' else 160
    for i in range(n):
        for kind in DQNS:
            yield periodic, dict(kind=kind, runs=[int(x) for x in rng.randint(20, 70, int(rng.randint(1, 4)))],
                                 o=dict(freq=int(rng.randint(1, 10)), init=int(rng.choice([2, 10, 25])), cap=int(rng.choice([30, 64])),
                                        n_ens=int(rng.randint(2, 5)), per_fit=int(rng.randint(2, 4)), batch=int(rng.randint(2, 6)),
                                        nsr=int(rng.randint(1, 3)), horizon=int(rng.choice([5, 30]))))
        for kind in ('ddpg', 'td3', 'sac'):
            yield soft, dict(kind=kind, runs=[int(x) for x in rng.randint(20, 70, int(rng.randint(1, 4)))],
                             o=dict(tau=float(rng.choice([0., .01, .3, .5, 1.])), delay=int(rng.randint(1, 5)), warmup=int(rng.choice([0, 20, 35])),
                                    init=int(rng.choice([2, 10, 25])), cap=int(rng.choice([40, 64])), per_fit=int(rng.randint(1, 4)),
                                    batch=int(rng.randint(2, 6)), horizon=int(rng.choice([5, 30]))))
