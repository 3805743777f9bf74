import numpy as np
import torch
from mushroom_rl.core import AgentInfo
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory
from mushroom_rl.rl_utils.parameters import LinearParameter
from vlib.common import to_np
from vlib.data import *
from vlib.stubs import snapshot
from checks.c10 import nstep, compare

PROPERTY = 'C11'
RULE = ('random histories of additions, priority updates and draws on capacities 1..33 (powers of two or not), priorities '
        'from wide, equal or almost-equal distributions (equal siblings included), n-step lengths, both backends; a '
        'parallel model keeps (sample, priority); draw frequencies tested at a false-alarm level of about 1e-9 per case')
NEED = dict(additions=600, updates=300, draws=60000, weights=60000, frequency_tests=100, wraps=80, equal_priority_cases=20,
            nstep_samples=300, drained=100, beta_steps=300)


def history(m, rng, backend, cap, init, alpha, beta, eps, n, ops, p_last, kind, stateful):
    ps = (2,) if stateful else None
    b = beta if not isinstance(beta, list) else LinearParameter(beta[0], beta[1], beta[2])
    ref_b = None if not isinstance(beta, list) else list(beta)
    mem = PrioritizedReplayMemory(mdp_info(backend, 2, 1), AgentInfo(False, ps, backend), init, cap, alpha, b, eps)
    st = Stream(rng, p_last, ps=ps)
    held, idx_of, order = [], {}, []
    calls = 0

    def prio(k):
        if kind == 'equal':
            return np.ones(k) * 2.
        if kind == 'halves':
            return rng.choice([.5, 1., 2.], k)
        return np.exp(rng.randn(k) * 1.5)

    def cur_beta():
        if ref_b is None:
            return beta
        coeff = (ref_b[1] - ref_b[0]) / ref_b[2]
        v = coeff * (calls + 1) + ref_b[0]
        return min(v, ref_b[1]) if coeff >= 0 else max(v, ref_b[1])

    def draw(k):
        nonlocal calls
        pr = {q['uid']: q['p'] for q in held}
        tot = sum(pr.values())
        bt = cur_beta()
        out = mem.get(k)
        calls += 1
        m.event('beta_steps')
        fields, idxs, w = out[:-2], to_np(out[-2]), to_np(out[-1]).astype(float)
        m.eq(len(idxs), k, 'batch-size')
        uids = [int(x[0]) for x in to_np(fields[0])]
        raw = []
        for i, u in enumerate(uids):
            m.ok(u in pr, 'empty-or-overwritten-sample', f'{u} is not stored')
            raw.append((len(held) * pr[u] / tot) ** -bt)
            if i < 3:
                compare(m, fields, i, [q for q in held if q['uid'] == u][0], stateful, 'sample')
            if u in idx_of:
                m.eq(int(idxs[i]), idx_of[u], 'sample-index-changed')
            idx_of[u] = int(idxs[i])
        raw = np.array(raw) / max(raw)
        m.close(w, raw, 'importance-weights', f'beta={bt}', rtol=1e-4 if backend == 'torch' else 1e-6, atol=1e-7)
        m.close(w.max(), 1., 'weights-not-normalized', rtol=1e-6)
        m.event('draws', k)
        m.event('weights', k)
        return uids, idxs

    for _ in range(ops):
        op = rng.rand()
        if op < .5 or not held:
            k = int(rng.choice([1, 2, int(rng.randint(1, 9)), cap + int(rng.randint(0, 4))]))
            rows = st.rows(max(k, n))
            pr = prio(len(rows))
            ds = dataset(rows, backend, 2, 1, ps)
            before = snapshot(ds)
            give = pr.copy()
            mem.add(ds, give, n, .9) if n > 1 else mem.add(ds, give)
            m.eq(snapshot(ds), before, 'added-data-altered')
            m.eq(give, pr, 'added-priorities-altered')
            new = nstep(rows, n, .9)
            at = {q['uid']: pr[i] for i, q in enumerate(rows)}
            new = [dict(q, p=at[q['uid']]) for q in new]
            m.event('wraps', int(len(held) + len(new) > cap))
            for q in (held + new)[:-cap] if len(held + new) > cap else []:
                idx_of.pop(q['uid'], None)
            held = (held + new)[-cap:]
            m.event('additions')
            m.event('nstep_samples', len(new) if n > 1 else 0)
        elif op < .8:
            uids, idxs = draw(int(rng.choice([int(rng.randint(1, 12)), 150], p=[.85, .15])))
            err = rng.randn(len(idxs)) * 2
            if rng.rand() < .3:
                err[:] = 1.
            mem.update(err, idxs)
            for u, e in zip(uids, err):
                [q for q in held if q['uid'] == u][0]['p'] = (abs(e) + eps) ** alpha
            m.event('updates')
        m.eq(bool(mem.initialized), len(held) > init, 'initialized')
        mx = max([q['p'] for q in held]) if held and len(held) > init else 1.
        m.close(float(mem.max_priority), mx, 'max-priority', rtol=1e-6)
        if held:
            draw(int(rng.randint(1, 9)))
    if not held:
        return
    # frequencies
    N, cnt = 0, {}
    k = int(rng.choice([1, 3, 32, 64]))
    target = 3000
    while N < target:
        uids, _ = draw(k)
        N += k
        for u in uids:
            cnt[u] = cnt.get(u, 0) + 1
    tot = sum(q['p'] for q in held)
    for q in held:
        p = q['p'] / tot
        c = cnt.get(q['uid'], 0)
        dev = abs(c - N * p)
        m.ok(dev <= 6.5 * np.sqrt(N * p * (1 - p)) + 12, 'draw-frequency',
             f"sample drawn {c} times of {N}, expected {N * p:.1f} (priority {q['p']:.3g} of {tot:.3g})")
        if N * p > 40:
            m.ok(c > 0, 'sample-never-drawn')
    m.event('frequency_tests')
    m.event('drained')
    if kind != 'wide':
        m.event('equal_priority_cases')
    m.seen(backend, cap, [(q['uid'], round(q['p'], 6)) for q in held])
    m.sample(capacity=cap, held=len(held), kind=kind, draws=N)


def cases(tier, rng):
    for c in range(150 if tier == 'quick' else 2500):
        yield history, dict(backend=['numpy', 'numpy', 'torch'][c % 3], cap=int(rng.choice([2, 3, 4, 5, 8, 13, 16, 33])),
                            init=int(rng.randint(0, 5)), alpha=float(rng.choice([0.3, .6, 1.])),
                            beta=float(rng.choice([.2, .5, 1.])) if rng.rand() < .6 else [.4, 1., 50],
                            eps=float(rng.choice([.01, .1])), n=int(rng.choice([1, 1, 1, 2, 3])), ops=int(rng.randint(5, 25)),
                            p_last=float(rng.choice([.1, .3])), kind=str(rng.choice(['wide', 'halves', 'equal'])),
                            stateful=bool(rng.rand() < .2))
