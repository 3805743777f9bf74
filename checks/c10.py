import numpy as np
import torch
from mushroom_rl.core import AgentInfo
from mushroom_rl.rl_utils.replay_memory import ReplayMemory, SequenceReplayMemory
from vlib.common import to_np
from vlib.data import *
from vlib.stubs import snapshot

PROPERTY = 'C10'
RULE = ('random histories of additions (empty-to-larger-than-capacity blocks, episode ends anywhere), draws and resets, '
        'capacities 1..17, n-step lengths 1..5, both backends and mixed dataset/agent backends, stateful or not; contents '
        'decided by draining the memory with repeated draws; distinct by the digest of the held ids over time')
NEED = dict(additions=1200, samples_added=3000, batches=8000, samples_returned=60000, wraps=200, oversized_blocks=60,
            nstep_samples=1000, stateful_samples=2000, sequences=15000, truncated_sequences=2000, full_sequences=2000,
            drained=900, resets=30)


def nstep(rows, n, g):
    out = []
    for i in range(len(rows) - n + 1):
        if any(rows[k]['last'] for k in range(i, i + n - 1)):
            continue
        e = rows[i + n - 1]
        out.append(dict(rows[i], r=sum(g ** k * rows[i + k]['r'] for k in range(n)), n=e['n'], ab=e['ab'], last=e['last'],
                        nps=e['nps']))
    return out


def compare(m, b, i, w, stateful, what):
    m.eq(to_np(b[0][i]).astype(float), w['s'], what + '-state')
    m.eq(to_np(b[1][i]).astype(float), w['a'], what + '-action')
    m.close(to_np(b[2][i]), w['r'], what + '-reward', rtol=1e-5, atol=1e-5)
    m.eq(to_np(b[3][i]).astype(float), w['n'], what + '-next-state')
    m.eq(bool(b[4][i]), w['ab'], what + '-absorbing')
    m.eq(bool(b[5][i]), w['last'], what + '-last')
    if stateful:
        m.eq(to_np(b[6][i]).astype(float), w['ps'], what + '-policy-state')
        m.eq(to_np(b[7][i]).astype(float), w['nps'], what + '-policy-next-state')


def ring(m, rng, backend, data_backend, cap, init, stateful, n, gamma, ops, p_last):
    ps = (2,) if stateful else None
    mem = ReplayMemory(mdp_info(backend, 2, 1), AgentInfo(False, ps, backend), init, cap)
    st = Stream(rng, p_last, ps=ps)
    held = []
    total = 0
    trace = []
    for _ in range(ops):
        op = rng.rand()
        if op < .06:
            mem.reset()
            held = []
            m.event('resets')
        elif op < .6:
            k = int(rng.choice([1, 1, 2, 3, int(rng.randint(1, 8)), cap + int(rng.randint(0, 6))]))
            k = max(k, n) if rng.rand() < .7 else k
            rows = st.rows(k)
            ds = dataset(rows, data_backend, 2, 1, ps, spare=int(rng.randint(2)))
            before = snapshot(ds)
            mem.add(ds, n, gamma) if n > 1 else mem.add(ds)
            m.eq(snapshot(ds), before, 'added-data-altered')
            new = nstep(rows, n, gamma)
            was = len(held)
            held = (held + new)[-cap:]
            m.event('additions')
            m.event('samples_added', len(new))
            m.event('wraps', int(was + len(new) > cap))
            m.event('oversized_blocks', int(len(new) > cap))
            m.event('nstep_samples', len(new) if n > 1 else 0)
        m.eq(mem.size, len(held), 'size')
        m.eq(bool(mem.initialized), len(held) > init, 'initialized')
        if held:
            by = {q['uid']: q for q in held}
            seen = set()
            need = 40 * len(held)
            while need > 0:
                k = int(rng.randint(1, 30))
                b = mem.get(k)
                m.eq(len(b), 8 if stateful else 6, 'batch-arity')
                for f in b:
                    m.eq(len(f), k, 'batch-size')
                for f in b[:6]:
                    m.ok(isinstance(f, torch.Tensor) == (backend == 'torch'), 'batch-backend')
                for i in range(k):
                    u = int(to_np(b[0][i])[0])
                    m.ok(u in by, 'sample-not-held', f'{u} is not among the last {cap} samples')
                    if u not in seen or need % 7 == 0:
                        compare(m, b, i, by[u], stateful, 'sample')
                    seen.add(u)
                need -= k
                m.event('batches')
                m.event('samples_returned', k)
                m.event('stateful_samples', k if stateful else 0)
            m.eq(sorted(seen), sorted(by), 'held-sample-never-returned')
            m.event('drained')
        trace.append(sorted(q['uid'] for q in held))
    m.seen(backend, cap, n, trace)
    m.sample(capacity=cap, n_steps=n, backend=backend, sizes=[len(t) for t in trace][:12])


def sequences(m, rng, backend, cap, trunc, ops, p_last, block):
    ps = (2,)
    mem = SequenceReplayMemory(mdp_info(backend, 2, 1), AgentInfo(False, ps, backend), 0, cap, trunc)
    st = Stream(rng, p_last, ps=ps)
    held = []
    for _ in range(ops):
        rows = st.rows(int(rng.randint(1, block + 1)))
        ds = dataset(rows, backend, 2, 1, ps)
        before = snapshot(ds)
        mem.add(ds)
        m.eq(snapshot(ds), before, 'added-data-altered')
        held = (held + rows)[-cap:]
        pos = {q['uid']: i for i, q in enumerate(held)}
        m.eq(mem.size, len(held), 'size')
        k = 40
        s, a, r, ss, ab, last, p, np_, pa, lengths = mem.get(k)
        m.eq(len(lengths), k, 'sequence-batch-size')
        for i in range(k):
            L = int(lengths[i])
            m.ok(1 <= L <= trunc, 'sequence-length', f'{L}')
            ids = [int(x[0]) for x in to_np(s[i][:L])]
            m.ok(all(u in pos for u in ids), 'sequence-sample-not-held', f'{ids}')
            m.eq([pos[u] for u in ids], list(range(pos[ids[0]], pos[ids[0]] + L)), 'sequence-not-contiguous', f'{ids}')
            piece = [held[pos[u]] for u in ids]
            m.eq(len({q['ep'] for q in piece}), 1, 'sequence-crosses-episodes', f'{ids}')
            end = piece[-1]
            # full history: it may only be shorter than the truncation at an episode or storage boundary
            j = pos[ids[0]]
            first = j == 0 or held[j - 1]['last']
            if L < trunc and not first:
                # the physical buffer start is the only other admissible boundary
                m.ok(len(held) == cap, 'sequence-too-short', f'{ids} could be extended')
                m.event('buffer_boundary_sequences')
            for t, q in enumerate(piece):
                m.eq(to_np(a[i][t]).astype(float), q['a'], 'sequence-action')
                m.eq(to_np(ss[i][t]).astype(float), q['n'], 'sequence-next-state')
                m.eq(to_np(p[i][t]).astype(float), q['ps'], 'sequence-policy-state')
                m.eq(to_np(np_[i][t]).astype(float), q['nps'], 'sequence-policy-next-state')
                want = piece[t - 1]['a'] if t else None
                got = to_np(pa[i][t]).astype(float)
                if t:
                    m.eq(got, want, 'sequence-previous-action')
                elif held[j - 1]['last'] if j else False:
                    m.eq(got, np.zeros(1), 'sequence-first-previous-action', 'episode start')
                elif j:
                    m.ok(np.array_equal(got, held[j - 1]['a']) or (len(held) == cap and not got.any()),
                         'sequence-first-previous-action', f'{got} before {ids}')
                else:
                    m.ok(not got.any(), 'sequence-first-previous-action', 'nothing stored before')
            m.close(to_np(r[i])[0], end['r'], 'sequence-reward', rtol=1e-5, atol=1e-6)
            m.eq(bool(ab[i][0]), end['ab'], 'sequence-absorbing')
            m.eq(bool(last[i]), end['last'], 'sequence-last')
            for f in (s, a, ss, p, np_, pa):
                m.ok(not to_np(f[i][L:]).any(), 'sequence-padding')
            m.event('sequences')
            m.event('truncated_sequences', int(L < trunc))
            m.event('full_sequences', int(L == trunc))
    m.seen(backend, cap, trunc, [q['uid'] for q in held])


def big(m, rng, backend, cap, n):
    """a memory of realistic size, filled past its capacity and read in large batches"""
    mem = ReplayMemory(mdp_info(backend, 2, 1), AgentInfo(False, None, backend), 5, cap)
    st = Stream(rng, .02, ps=None)
    held = []
    while len(held) < cap or rng.rand() < .7:
        rows = st.rows(int(rng.randint(cap // 3, cap)))
        ds = dataset(rows, backend, 2, 1, None)
        mem.add(ds, n, .9) if n > 1 else mem.add(ds)
        new = nstep(rows, n, .9)
        m.event('wraps', int(len(held) + len(new) > cap))
        held = (held + new)[-cap:]
        m.eq(mem.size, len(held), 'size')
        m.event('additions')
        m.event('samples_added', len(new))
    by = {q['uid']: q for q in held}
    seen = set()
    for _ in range(8):
        k = 5 * cap
        b = mem.get(k)
        u = to_np(b[0])[:, 0].astype(int)
        m.ok(set(u.tolist()) <= set(by), 'sample-not-held')
        seen |= set(u.tolist())
        for i in rng.randint(k, size=40):
            compare(m, b, int(i), by[int(u[i])], False, 'sample')
        m.event('samples_returned', k)
    m.eq(sorted(seen), sorted(by), 'held-sample-never-returned')
    m.event('drained')
    m.seen(backend, cap, n, 'big')


def cases(tier, rng):
    q = tier == 'quick'
    for c in range(2 if q else 12):
        for be in ('numpy', 'torch'):
            yield big, dict(backend=be, cap=[600, 5000][c % 2], n=int(rng.choice([1, 3])))
    for c in range(300 if q else 2500):
        be = ['numpy', 'torch'][c % 2]
        yield ring, dict(backend=be, data_backend=be if rng.rand() < .7 else ['torch', 'numpy'][c % 2],
                         cap=int(rng.choice([1, 2, 3, 5, 8, 17])), init=int(rng.randint(0, 6)), stateful=bool(rng.rand() < .3),
                         n=int(rng.choice([1, 1, 2, 3, 5])), gamma=float(rng.choice([1., .9, .5])),
                         ops=int(rng.randint(8, 25)), p_last=float(rng.choice([0., .1, .3, .8])))
    for c in range(90 if q else 1000):
        yield sequences, dict(backend=['numpy', 'torch'][c % 2], cap=int(rng.choice([3, 6, 11, 30])),
                              trunc=int(rng.choice([1, 2, 4, 7])), ops=int(rng.randint(4, 16)),
                              p_last=float(rng.choice([0., .1, .3])), block=int(rng.choice([1, 4, 9])))
