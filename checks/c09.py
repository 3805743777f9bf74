"""C09: a reloaded agent continues like the original."""
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import torch

from mushroom_rl.core import Agent, Core
from mushroom_rl.policy import Boltzmann, EpsGreedy
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.preprocessors import MinMaxPreprocessor, StandardizationPreprocessor
from vlib import agents
from vlib.common import digest

PROPERTY = 'C09'
RULE = ('every algorithm of the library is trained by the real Core; at random save points (before anything, in the middle of an episode, '
        'between two fits, after the last fit) the agent is saved in full and loaded, and from then on the loaded twin is shown every '
        'episode start, drawn state and fit dataset of the original under the same random state; actions, policy states and parameters '
        'and the distributions over probe states must stay equal. A second monitor compares a run that saves now and then with one that '
        'never does, a third loads the agent in a new process, a fourth saves without the full state')
NEED = dict(save_points=500, twin_draws=2500, twin_fits=1200, twin_episodes=700, fresh_saves=40, late_saves=200, undisturbed=100,
            light_saves=100, new_process=3, second_generation=80, **{'k_' + k: 4 for k in agents.ALL})
CASE_LIMIT = 300


def rng_state():
    return np.random.get_state(), torch.get_rng_state(), random.getstate()


def set_rng(s):
    np.random.set_state(s[0])
    torch.set_rng_state(s[1])
    random.setstate(s[2])


def host(x):
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().numpy()
    return x


def arrays(x):
    """Flatten a result into a list of arrays."""
    x = host(x)
    if x is None:
        return []
    if isinstance(x, (tuple, list)):
        return [y for z in x for y in arrays(z)]
    if isinstance(x, dict):
        return [y for k in sorted(x) for y in arrays(x[k])]
    return [np.asarray(x, dtype=float)]


def probes(env, n=5):
    r = np.random.RandomState(7)
    sp = env.info.observation_space
    if hasattr(sp, 'n'):
        return [np.array([i]) for i in range(sp.n)]
    return [r.randn(*sp.shape) for _ in range(n)]


def view(agent, env):
    """Observable learned state: policy weights and action distributions at probe states (random state preserved)."""
    st = rng_state()
    out = []
    try:
        p = agent.policy
        for f in ('get_weights',):
            if hasattr(p, f):
                try:
                    out.append(arrays(getattr(p, f)()))
                except (NotImplementedError, AttributeError):
                    pass
        discrete = isinstance(p, (Boltzmann, EpsGreedy))
        if discrete:
            for s in probes(env):
                out.append(arrays(p(s)))
        d = getattr(agent, 'distribution', None)
        if d is not None:
            out.append(arrays(d.get_parameters()))
        tt = agent.info.backend == 'torch'
        for k in range(0 if discrete else 2):
            for s in probes(env)[:3]:
                np.random.seed(k)
                torch.manual_seed(k)
                s = torch.tensor(s, dtype=torch.float32) if tt else s
                out.append(arrays(p.draw_action(s, p.reset())))
    finally:
        set_rng(st)
    return [y for x in out for y in x]


def make(kind, rng):
    o = {}
    if rng.rand() < .5 and kind in agents.TD:
        o['pol'] = 'boltzmann'
    if kind in ('q_lambda', 'sarsa_lambda'):
        o['trace'] = str(rng.choice(['replacing', 'accumulating']))
    if kind == 'rq' and rng.rand() < .5:
        o['delta'] = True
    if kind in agents.DQNS + agents.DEEP_AC:
        o['opt'] = [None, agents.adam(), agents.sgd()][rng.randint(3)]
        o['spare'] = bool(rng.rand() < .4)      # networks with an unused head
    if kind in agents.DQNS + agents.BATCH and rng.rand() < .6:
        o['pol'] = 'boltzmann'      # a distribution that shows the action values
    ag, env, lk = agents.build(kind, o)
    if kind not in agents.TD + agents.BBO + agents.PG + ['trpo'] and rng.rand() < .3:
        pre = (StandardizationPreprocessor if rng.rand() < .5 or np.isinf(env.info.observation_space.low).all() else MinMaxPreprocessor)
        pre = pre(env.info, ag.info.backend)
        ag.add_agent_preprocessor(pre)
    return ag, env, lk


def same(m, a, b, key, what):
    a, b = arrays(a), arrays(b)
    m.eq(len(a), len(b), key, what + ': number of results')
    for x, y in zip(a, b):
        m.eq(x.shape, y.shape, key, what + ': shape')
        m.close(y, x, key, what, rtol=1e-5, atol=1e-6)


class Twins:
    """Shows everything the original agent goes through to the loaded twins, under the same random state."""
    def __init__(self, m, kind, agent, env, plan, directory):
        self.m, self.kind, self.agent, self.env, self.plan, self.dir = m, kind, agent, env, plan, directory
        self.twins, self.calls, self.n, self.busy = [], 0, 0, False
        for name in ('draw_action', 'fit', 'episode_start'):
            setattr(agent, name, self.wrap(name, getattr(agent, name)))

    def maybe_save(self):
        if self.calls in self.plan:
            self.save()
        self.calls += 1

    def save(self, src=None):
        src = src or self.agent
        hidden = {}
        if src is self.agent:       # the observers are no part of the agent
            for name in ('draw_action', 'fit', 'episode_start'):
                hidden[name] = src.__dict__.pop(name)
        p = os.path.join(self.dir, f'a{self.n}.msh')
        self.n += 1
        st = rng_state()
        try:
            src.save(p, full_save=True)
            t = Agent.load(p)
        finally:
            src.__dict__.update(hidden)
        self.m.ok(digest(st[0]) == digest(np.random.get_state()) and bool((st[1] == torch.get_rng_state()).all()), 'save-draws',
                  f'{self.kind}: saving or loading used the random generators')
        self.m.ok(type(t) is type(src), 'load-type', f'{type(t)}')
        same(self.m, view(src, self.env), view(t, self.env), 'loaded-view', f'{self.kind}: directly after loading (call {self.calls})')
        self.twins.append((self.calls, t))
        self.m.event('save_points')
        self.m.event('k_' + self.kind)
        self.m.event('fresh_saves', int(self.calls == 0))

    def wrap(self, name, inner):
        def f(*args, **kw):
            if self.busy:           # a call of the agent itself
                return inner(*args, **kw)
            self.maybe_save()
            argc = [copy.deepcopy((args, kw)) for _ in self.twins]
            for _, t in self.twins:         # the action already chosen for the next step is no part of the saved state
                t.next_action = copy.deepcopy(self.agent.next_action)
            st = rng_state()
            self.busy = True
            out = inner(*args, **kw)
            self.busy = False
            after = rng_state()
            if self.twins:
                keep = copy.deepcopy(arrays(out))
            for (at, t), (a, k) in zip(self.twins, argc):
                set_rng(st)
                o = getattr(t, name)(*a, **k)
                where = f'{self.kind}: {name} at call {self.calls} of a twin saved at call {at}'
                if name != 'fit':
                    same(self.m, keep, o, name.replace('_', '-'), where)
                    self.m.event('twin_draws' if name == 'draw_action' else 'twin_episodes')
                else:
                    self.m.event('twin_fits')
                    self.m.event('late_saves', int(at > 5))
                    set_rng(after)
                    same(self.m, view(self.agent, self.env), view(t, self.env), 'after-fit', where)
                self.m.seen(self.kind, name, at)
            set_rng(after)
            return out
        return f


def resume(m, rng, kind):
    agents.seed_all(int(rng.randint(2 ** 31)))
    ag, env, lk = make(kind, rng)
    d = tempfile.mkdtemp(prefix='c09-')
    try:
        total = 30 if kind in agents.BATCH + agents.PG + agents.BBO else 60
        plan = set([0] if rng.rand() < .4 else []) | set(int(x) for x in rng.randint(1, total, 3))
        tw = Twins(m, kind, ag, env, plan, d)
        Core(ag, env).learn(quiet=True, **lk)
        if kind == 'boosted_fqi':
            return
        tw.twins = tw.twins[-2:]
        tw.save()                                   # after the last fit
        if tw.twins and rng.rand() < .7:            # a save of a loaded agent
            tw.save(tw.twins[0][1])
            m.event('second_generation')
        tw.plan = set()
        lk2 = dict(lk)
        for k in ('n_steps', 'n_episodes'):
            if k in lk2:
                lk2[k] = max(1, lk2[k] // 2)
        Core(ag, env).learn(quiet=True, **lk2)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def record(kind, seed, rng_make, save_at, d, full=True):
    agents.seed_all(seed)
    ag, env, lk = make(kind, rng_make)
    log = []
    calls = [0]
    for name in ('draw_action', 'fit'):
        inner = getattr(ag, name)

        def f(*a, _inner=inner, _name=name, **k):
            if calls[0] in save_at:
                hidden = {n: ag.__dict__.pop(n) for n in ('draw_action', 'fit') if n in ag.__dict__}
                ag.save(os.path.join(d, 'x.msh'), full_save=full)
                ag.__dict__.update(hidden)
            calls[0] += 1
            out = _inner(*a, **k)
            if _name == 'draw_action':
                log.append([x.copy() for x in arrays(out)])
            return out
        setattr(ag, name, f)
    Core(ag, env).learn(quiet=True, **lk)
    return log, view(ag, env)


def undisturbed(m, rng, kind):
    d = tempfile.mkdtemp(prefix='c09-')
    try:
        seed = int(rng.randint(2 ** 31))
        mk = int(rng.randint(2 ** 31))
        a, va = record(kind, seed, np.random.RandomState(mk), (), d)
        at = set(int(x) for x in rng.randint(0, 40, 6))
        b, vb = record(kind, seed, np.random.RandomState(mk), at, d, bool(rng.rand() < .5))
        m.eq(len(a), len(b), 'disturbed-length', kind)
        for i, (x, y) in enumerate(zip(a, b)):
            same(m, x, y, 'disturbed-actions', f'{kind}: action {i} differs from a run that never saved')
        same(m, va, vb, 'disturbed-parameters', f'{kind}: parameters differ from a run that never saved')
        m.event('undisturbed')
        m.seen(kind, 'undisturbed')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def light(m, rng, kind):
    """Saved without the full state: the policy is the same, and learning can go on."""
    agents.seed_all(int(rng.randint(2 ** 31)))
    ag, env, lk = make(kind, rng)
    if rng.rand() < .8 or kind == 'boosted_fqi':
        Core(ag, env).learn(quiet=True, **lk)
    d = tempfile.mkdtemp(prefix='c09-')
    try:
        p = os.path.join(d, 'a.msh')
        ag.save(p)
        t = Agent.load(p)
        same(m, view(ag, env), view(t, env), 'light-view', f'{kind}: saved without the full state')
        for s in probes(env)[:3]:
            st = rng_state()
            outs = []
            for x in (ag, t):
                set_rng(st)
                x.next_action = None
                ps, _ = x.episode_start(s, {})
                outs.append(x.draw_action(s, ps))
            same(m, *outs, 'light-draws', f'{kind}: saved without the full state')
        if kind != 'boosted_fqi':
            Core(t, env).learn(quiet=True, **lk)
        m.event('light_saves')
        m.event('k_' + kind)
        m.seen(kind, 'light')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go_on(kind, agent, env, lk):
    """Learn on for a while and report the learned state."""
    agents.seed_all(5)
    if kind != 'boosted_fqi':
        Core(agent, env).learn(quiet=True, **lk)
    return view(agent, env)


CHILD = '''
import sys, pickle
sys.path.insert(0, {root!r})
import numpy as np, torch
from checks import c09
from vlib import agents
from mushroom_rl.core import Agent, Core
out = []
for kind, p, seed, env, lk in pickle.load(open({spec!r}, 'rb')):      # no agent is built here
    t = Agent.load(p)
    agents.seed_all(seed)
    v = c09.view(t, env)
    ds = Core(t, env).evaluate(n_steps=8, quiet=True)
    runs = [np.asarray(c09.host(x), dtype=float) for x in ds.parse()[:3]]
    out.append((v, runs, c09.go_on(kind, t, env, lk)))
pickle.dump(out, open({res!r}, 'wb'))
'''


def new_process(m, rng, kinds):
    import pickle
    d = tempfile.mkdtemp(prefix='c09-')
    try:
        spec, want = [], []
        for i, kind in enumerate(kinds):
            agents.seed_all(int(rng.randint(2 ** 31)))
            ag, env, lk = agents.build(kind)
            Core(ag, env).learn(quiet=True, **lk)
            p = os.path.join(d, f'{i}.msh')
            ag.save(p, full_save=True)
            seed = int(rng.randint(2 ** 31))
            spec.append((kind, p, seed, pickle.loads(pickle.dumps(env)), lk))
            agents.seed_all(seed)
            v = view(ag, env)
            ds = Core(ag, env).evaluate(n_steps=8, quiet=True)
            runs = [np.asarray(host(x), dtype=float) for x in ds.parse()[:3]]
            want.append((v, runs, go_on(kind, ag, env, lk)))
        sp, res = os.path.join(d, 'spec'), os.path.join(d, 'res')
        pickle.dump(spec, open(sp, 'wb'))
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        r = subprocess.run([sys.executable, '-c', CHILD.format(root=root, spec=sp, res=res)], capture_output=True, text=True, cwd=root, timeout=250)
        m.ok(r.returncode == 0, 'new-process-fails', f'{kinds}: {r.stderr[-400:]}')
        got = pickle.load(open(res, 'rb'))
        for kind, (v, x, l), (w, y, k) in zip(kinds, got, want):
            same(m, k, l, 'new-process-learning', f'{kind}: parameters after learning on in a new process')
            same(m, w, v, 'new-process-view', f'{kind}: loaded in a new process')
            same(m, y, x, 'new-process-run', f'{kind}: evaluation in a new process')
        m.event('new_process')
        m.seen('process', tuple(kinds))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cases(tier, rng):
    n = 3 if tier == 'quick' else 12
    for _ in range(n):
        for kind in agents.ALL:
            yield 'resume', dict(kind=kind)
            yield 'undisturbed', dict(kind=kind)
            yield 'light', dict(kind=kind)
    order = [agents.ALL[i] for i in rng.permutation(len(agents.ALL))]
    for i in range(0, len(order), 8):
        yield 'new_process', dict(kinds=order[i:i + 8])
