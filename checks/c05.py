import numpy as np
import torch
from mushroom_rl.core import Dataset, MDPInfo, AgentInfo
from mushroom_rl.core.dataset import DatasetInfo
from mushroom_rl.rl_utils.spaces import Box, Discrete
from vlib.common import to_np

PROPERTY = 'C05'
RULE = ('random sequences of dataset operations (append, view by slice / index array / mask, copy, concatenate, clear, '
        'select, export, rebuild) on up to four live datasets per backend, every live dataset compared with its list '
        'model after every operation; distinct by the digest of operation names and contents')
NEED = dict(operations=8000, appends=5000, views=1500, copies=400, concatenations=400, clears=200, exports=400,
            policy_state_comparisons=1500, mutation_probes=400, random_selections=200, episode_selections=200,
            rebuilds=200, held_views=500, types_checked=3000, rebuilt_from_Tensor=50, rebuilt_from_ndarray=50)
FIELDS = ('state', 'action', 'reward', 'next_state', 'absorbing', 'last')
DT = dict(numpy=dict(f=np.float64, f32=np.float32, i=np.int64), torch=dict(f=torch.float64, f32=torch.float32, i=torch.int64),
          list=dict(f=np.float64, f32=np.float32, i=np.int64))


class Model:
    def __init__(self):
        self.rows, self.theta = [], []


class Maker:
    def __init__(self, rng, backend, sshape, ashape, sd, ad, stateful):
        self.rng, self.backend, self.sshape, self.ashape = rng, backend, tuple(sshape), tuple(ashape)
        self.sd, self.ad, self.stateful = sd, ad, stateful
        self.uid = 0

    def arr(self, shape, d):
        self.uid += 1
        x = self.uid * 10 + np.arange(int(np.prod(shape)) if shape else 1).reshape(shape if shape else ())
        x = x + dict(f=1 / 3, f32=.5, i=2 ** 40)[d]                 # needs the whole precision of the declared type
        if self.backend == 'torch':
            return torch.tensor(x, dtype=DT['torch'][d])
        return np.array(x, dtype=DT['numpy'][d])

    def step(self):
        s, a, n = self.arr(self.sshape, self.sd), self.arr(self.ashape, self.ad), self.arr(self.sshape, self.sd)
        r = float(np.float32(self.rng.randn()))
        ab = bool(self.rng.rand() < .1)
        la = ab or bool(self.rng.rand() < .15)
        out = [s, a, r, n, ab, la]
        if self.stateful:
            out += [self.arr((2,), 'f32'), self.arr((2,), 'f32')]
        return tuple(out)

    def info(self, cap=None, episodes=False):
        return DatasetInfo(self.backend, None, 3, .9, self.sshape, DT[self.backend][self.sd], self.ashape,
                           DT[self.backend][self.ad], (2,) if self.stateful else None)


def row(step):
    return tuple(np.array(to_np(x), dtype=float) for x in step)


def check(m, ds, mod, stateful, what, types=None):
    m.eq(len(ds), len(mod.rows), f'{what}-len')
    n = len(mod.rows)
    for k, f in enumerate(FIELDS):
        got = getattr(ds, f)
        m.eq(len(got), n, f'{what}-{f}-len')
        for i in range(n):
            m.eq(np.array(to_np(got[i]), dtype=float), mod.rows[i][k], f'{what}-{f}')
    if types:
        cls, sdt, adt = types
        for f in FIELDS + (('policy_state', 'policy_next_state') if stateful else ()):
            m.ok(isinstance(getattr(ds, f), cls), f'{what}-array-type', f'{f} is {type(getattr(ds, f)).__name__}')
        m.eq([str(ds.state.dtype), str(ds.next_state.dtype), str(ds.action.dtype)], [sdt, sdt, adt], f'{what}-data-type')
        m.event('types_checked')
    m.eq(bool(ds.is_stateful), stateful, f'{what}-stateful-flag')
    if stateful:
        ps, ns = ds.policy_state, ds.policy_next_state
        m.eq([len(ps), len(ns)], [n, n], f'{what}-policy-state-len')
        for i in range(n):
            m.eq(np.array(to_np(ps[i]), dtype=float), mod.rows[i][6], f'{what}-policy-state')
            m.eq(np.array(to_np(ns[i]), dtype=float), mod.rows[i][7], f'{what}-policy-next-state')
        m.event('policy_state_comparisons')
    for i, smp in enumerate(ds):
        m.ok(i < n, f'{what}-iteration-too-long')
        for k in range(6):
            m.eq(np.array(to_np(smp[k]), dtype=float), mod.rows[i][k], f'{what}-iteration')
    if mod.theta is not None:
        m.eq([np.array(t) for t in ds.theta_list], mod.theta, f'{what}-theta')


def rnd_index(rng, n, backend):
    k = rng.randint(6)
    if k == 0:
        return slice(int(rng.randint(0, n + 1)), None), 'slice'
    if k == 1:
        return slice(None, int(rng.randint(0, n + 2))), 'slice'
    if k == 2 and n:
        return slice(-int(rng.randint(1, n + 1)), None), 'neg-slice'
    if k == 3:
        a, b = sorted(rng.randint(0, n + 1, 2))
        return slice(int(a), int(b), int(rng.randint(1, 4))), 'step-slice'
    if k == 4 and backend != 'list':
        b = rng.rand(n) < .5
        return (torch.tensor(b) if backend == 'torch' and rng.rand() < .5 else b), 'mask'
    idx = rng.randint(0, max(n, 1), rng.randint(1, 6) if n else 0).astype(int)
    if backend == 'torch' and rng.rand() < .5:
        return torch.tensor(idx, dtype=torch.int64), 'tensor-index'
    return idx, 'array-index'


def pick(rows, index):
    if isinstance(index, slice):
        return rows[index]
    a = to_np(index)
    if a.dtype == bool:
        a = np.flatnonzero(a)
    return [rows[int(i)] for i in a]


def operations(m, rng, backend, sshape, ashape, sd, ad, stateful, n_ops, by_episodes):
    mk = Maker(rng, backend, sshape, ashape, sd, ad, stateful)

    def new():
        cap = int(rng.randint(3, 25))
        info = mk.info()
        if by_episodes:
            k = -(-cap // info.horizon)
            return [Dataset(info, n_episodes=k), Model(), k * info.horizon]
        if rng.rand() < .5:
            ds = Dataset(info, n_steps=cap)
        else:
            osp = Box(-1e9, 1e9, shape=mk.sshape, data_type=DT[backend][sd])
            asp = Box(-1e9, 1e9, shape=mk.ashape, data_type=DT[backend][ad])
            mdp = MDPInfo(osp, asp, .9, 3, backend=backend)
            ds = Dataset.generate(mdp, AgentInfo(False, (2,) if stateful else None, backend), n_steps=cap)
        return [ds, Model(), cap]
    own = None                                      # what the arrays of the declared types look like
    if backend != 'list':
        e = [mk.arr((1,), d) for d in (sd, ad)]
        own = type(e[0]), str(e[0].dtype), str(e[1].dtype)
    live = [new()]
    names = []
    held = []                                       # views and exports taken earlier: clearing and refilling must not reach them

    def check_held(what):
        for v, vm in held:
            check(m, v, vm, stateful, what)
            m.event('held_views')
    for _ in range(n_ops):
        q = live[rng.randint(len(live))]
        ds, mod, room = q
        op = rng.choice(['append'] * 4 + ['view', 'view', 'copy', 'add', 'clear', 'select', 'random', 'parse', 'new', 'item',
                                          'rebuild', 'theta', 'index'])
        n = len(mod.rows)
        names.append(op)
        m.event('operations')
        if op == 'append':
            for _ in range(rng.randint(1, 6)):
                if room <= 0:
                    break
                st = mk.step()
                keep = row(st)
                ds.append(st, {})
                mod.rows.append(keep)
                room -= 1
                m.event('appends')
                for x in st:                        # later changes of the caller's arrays must not matter
                    if hasattr(x, 'shape') and len(x.shape):
                        x[...] = -77
                        m.event('mutation_probes')
            q[2] = room
        elif op == 'theta':
            t = rng.randn(2)
            ds.append_theta(t)
            if mod.theta is not None:
                mod.theta = mod.theta + [t.copy()]
        elif op == 'view':
            idx, kind = rnd_index(rng, n, backend)
            v = ds.get_view(idx) if rng.rand() < .3 else ds[idx]
            vm = Model()
            vm.rows = pick(mod.rows, idx)
            vm.theta = None
            check(m, v, vm, stateful, f'view-{kind}', own)
            m.event('views')
            if len(held) < 6 and vm.rows:
                held.append((v, vm))
        elif op == 'copy':
            idx, kind = rnd_index(rng, n, backend)
            if kind == 'array-index' and len(to_np(idx)) > n or kind == 'tensor-index' and len(to_np(idx)) > n:
                continue
            v = ds.get_view(idx, copy=True)
            vm = Model()
            vm.rows = list(pick(mod.rows, idx))
            vm.theta = None
            check(m, v, vm, stateful, f'copy-{kind}')
            if backend != 'list' and vm.rows:       # writing into the copy must not reach the original, and vice versa
                v.state[...] = -5
                v.last[...] = True
                v.reward[...] = 99.
                if stateful:
                    v.policy_state[...] = -3
            elif vm.rows:
                for f in ('state', 'action', 'next_state') + (('policy_state', 'policy_next_state') if stateful else ()):
                    for x in getattr(v, f):
                        if hasattr(x, 'shape') and len(x.shape):
                            x[...] = -5
            check(m, ds, mod, stateful, 'original-after-copy')
            m.event('copies')
        elif op == 'add':
            o = live[rng.randint(len(live))]
            if rng.rand() < .3 and n:
                a, b = int(rng.randint(n)), int(rng.randint(1, n + 1))
                res = ds[a:] + ds[:b]
                rm = Model()
                rm.rows = list(mod.rows[a:]) + list(mod.rows[:b])
                rm.rows[n - a - 1] = rm.rows[n - a - 1][:5] + (np.array(1.),) + rm.rows[n - a - 1][6:]
                rm.theta = None
                check(m, res, rm, stateful, 'concatenation-of-views')
                check(m, ds, mod, stateful, 'viewed-operand')
                m.event('concatenations_of_views')
                continue
            res = ds + o[0]
            rm = Model()
            rm.rows = [r for r in mod.rows]
            if rm.rows:
                last = list(rm.rows[-1])
                last[5] = np.array(1.)
                rm.rows[-1] = tuple(last)
            rm.rows = rm.rows + list(o[1].rows)
            rm.theta = None if mod.theta is None or o[1].theta is None else mod.theta + o[1].theta
            check(m, res, rm, stateful, 'concatenation')
            check(m, ds, mod, stateful, 'left-operand')
            check(m, o[0], o[1], stateful, 'right-operand')
            if backend != 'list' and rm.rows:
                keep = res.reward[0].item()
                res.reward[...] = 5.
                res.last[...] = True
                check(m, ds, mod, stateful, 'left-operand-aliased')
                check(m, o[0], o[1], stateful, 'right-operand-aliased')
            m.event('concatenations')
        elif op == 'clear':
            if rng.rand() < .6:
                continue
            ds.clear()
            q[2] = room + len(mod.rows)
            mod.rows, mod.theta = [], []
            m.event('clears')
            for _ in range(min(rng.randint(0, 4), q[2])):           # refill at once
                st = mk.step()
                mod.rows.append(row(st))
                ds.append(st, {})
                q[2] -= 1
            check_held('view-after-clear')
        elif op == 'select':
            ends = [i for i, r in enumerate(mod.rows) if r[5]]
            if not ends:
                continue
            k = int(rng.randint(1, len(ends) + 1))
            v = ds.select_first_episodes(k)
            vm = Model()
            vm.rows = mod.rows[:ends[k - 1] + 1]
            vm.theta = None
            check(m, v, vm, stateful, 'first-episodes')
            m.event('episode_selections')
        elif op == 'random':
            if not n:
                continue
            k = int(rng.randint(1, 2 * n + 1))
            v = ds.select_random_samples(k)
            m.eq(len(v), k, 'random-count')
            ids = {float(r[0].ravel()[0]): r for r in mod.rows}
            for i in range(k):
                u = float(np.array(to_np(v.state[i]), dtype=float).ravel()[0])
                m.ok(u in ids, 'random-sample-unknown')
                for kk, f in enumerate(FIELDS):
                    m.eq(np.array(to_np(getattr(v, f)[i]), dtype=float), ids[u][kk], 'random-sample-mixed')
            m.event('random_selections')
        elif op == 'parse':
            to = rng.choice(['numpy', 'torch', 'own'])
            if backend == 'list' and (to == 'torch' or not n):
                continue
            out = ds.parse() if to == 'own' else ds.parse(to=str(to))
            m.eq(len(out), 6, 'parse-arity')
            for k in range(6):
                if to == 'numpy':
                    m.ok(isinstance(out[k], np.ndarray), 'parse-type')
                elif to == 'torch':
                    m.ok(isinstance(out[k], torch.Tensor), 'parse-type')
                m.eq(len(out[k]), n, 'parse-len')
                for i in range(n):
                    m.eq(np.array(to_np(out[k][i]), dtype=float), mod.rows[i][k], f'parse-{FIELDS[k]}')
            if stateful:
                ps = ds.parse_policy_state() if to == 'own' else ds.parse_policy_state(to=str(to))
                for k in range(2):
                    for i in range(n):
                        m.eq(np.array(to_np(ps[k][i]), dtype=float), mod.rows[i][6 + k], 'parse-policy-state')
            m.event('exports')
        elif op == 'new':
            if len(live) < 4:
                live.append(new())
        elif op == 'item':
            if n:
                i = int(rng.randint(n))
                it = ds[i:i + 1].item()
                for k in range(6):
                    m.eq(np.array(to_np(it[k]), dtype=float), mod.rows[i][k], 'item')
        elif op == 'index':
            for i in {0, n - 1, -1, -n, int(rng.randint(-n, n)) if n else 0}:
                if -n <= i < n:
                    it = ds[i]
                    for k in range(6):
                        m.eq(np.array(to_np(it[k]), dtype=float), mod.rows[i][k], 'integer-index', f'[{i}] of {n}')
            m.raises(IndexError, lambda: ds[n], 'index-out-of-range')
        elif op == 'rebuild':
            if not n or backend == 'list' and stateful and False:
                continue
            arrays = [np.array([np.array(r[k]) for r in mod.rows]) for k in range(8 if stateful else 6)]
            arrays[4], arrays[5] = arrays[4].astype(bool), arrays[5].astype(bool)
            give = [torch.tensor(a) for a in arrays] if rng.rand() < dict(torch=.7, numpy=.4, list=0.)[backend] else [a.copy() for a in arrays]
            kw = dict(policy_state=give[6], policy_next_state=give[7]) if stateful else {}
            th = None if mod.theta is None else list(mod.theta)
            nd = Dataset.from_array(*give[:6], theta_list=th, horizon=3, gamma=.9, backend=backend, **kw)
            nm = Model()
            nm.rows, nm.theta = list(mod.rows), th or []
            if backend != 'list':
                x = mk.arr((1,), 'f')
                check(m, nd, nm, stateful, 'from-array', (type(x), str(x.dtype), str(x.dtype)))
                m.event('rebuilt_from_' + type(give[0]).__name__)
            check(m, nd, nm, stateful, 'from-array')
            m.event('rebuilds')
        check(m, ds, mod, stateful, 'after-' + op, own)
    for ds, mod, _ in live:
        check(m, ds, mod, stateful, 'final')
    check_held('view-at-the-end')
    m.seen(backend, names, [r[0] for r in live[0][1].rows])
    m.sample(backend=backend, ops=[str(x) for x in names[:12]])


def cases(tier, rng):
    n = 400 if tier == 'quick' else 6000
    for c in range(n):
        yield operations, dict(backend=['numpy', 'torch', 'list'][c % 3],
                               sshape=[[1], [3], [2, 2]][rng.randint(3)], ashape=[[1], [2]][rng.randint(2)],
                               sd=['f', 'f32', 'i'][rng.randint(3)], ad=['f', 'f32', 'i'][rng.randint(3)],
                               stateful=bool(rng.rand() < .4), n_ops=int(rng.randint(10, 60)),
                               by_episodes=bool(rng.rand() < .3))
