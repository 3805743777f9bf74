import numpy as np
import torch
from vlib.common import Monitor
from vlib.stubs import *
from mushroom_rl.core import Core
from mushroom_rl.utils.callbacks import CollectDataset

PROPERTY = 'C01'
RULE = ('random termination scripts, horizons, run budgets (steps, episodes, initial states), backends, stateless and '
        'stateful policies, chains of state preprocessors, several consecutive runs of one loop; a case is distinct by '
        'the digest of its whole event log and non-trivial when it has at least one step')
NEED = dict(returned_infos=500, plans_played=40, plans_dropped=40, steps=2000, resets=300, horizon_ends=50, absorbing_ends=50, stateful_steps=200, preprocessed=200,
            initial_state_resets=30, torch_steps=200)
ASSUMPTIONS = ['the harness environment and policy report their own events faithfully']


def check_run(m, log, samples, dataset, budget, horizon, pres, initial, stateful, backend, is_eval):
    """Decide one run from its event log.  Returns expected transition list."""
    aff = lambda x: x
    if pres:
        def aff(x):
            for p in pres:
                x = x * p.a + p.b
            return x
    exp = []
    cur = None
    ps = None
    need_reset = True
    n_ep = 0
    t = 0
    k_init = 0
    i = 0
    shown = []
    while i < len(log):
        kind, kw = log[i]
        if kind == 'reset':
            m.ok(need_reset, 'unexpected-reset', f'reset in the middle of an episode at event {i}')
            m.event('resets')
            if initial is not None:
                m.ok(k_init < len(initial), 'too-many-episodes')
                m.ok(kw['given'] is not None, 'initial-state-dropped')
                m.eq(kw['given'], np.array(initial[k_init], dtype=float), 'initial-state-order')
                k_init += 1
                m.event('initial_state_resets')
            else:
                m.ok(kw['given'] is None, 'spurious-initial-state')
            raw = kw['obs']
            shown.append(raw)
            cur = aff(raw)
            need_reset = False
            ps = None
            t = 0
        elif kind == 'policy_reset':
            m.ok(t == 0 and not need_reset, 'policy-reset-time')
            ps = kw['ps']
        elif kind == 'draw':
            m.ok(not need_reset, 'missing-reset', 'action drawn after the episode ended without a reset')
            m.eq(kw['state'], cur, 'observation-seen-by-agent')
            if stateful:
                m.ok(kw['ps'] is not None and ps is not None, 'policy-memory-lost')
                m.eq(kw['ps'], ps, 'policy-memory-chain')
                m.event('stateful_steps')
            nxt, kw2 = log[i + 1] if i + 1 < len(log) else ('end', None)
            m.ok(nxt == 'step', 'draw-without-step', nxt)
            m.eq(kw2['action'], kw['action'], 'action-executed')
            t += 1
            m.eq(kw2['t'], t, 'step-count')
            raw = kw2['obs']
            shown.append(raw)
            nobs = aff(raw)
            last = kw2['absorbing'] or t >= horizon
            exp.append(dict(state=cur, action=kw['action'], reward=kw2['reward'], next_state=nobs,
                            absorbing=kw2['absorbing'], last=last, ps=ps, nps=kw['nps'], uid=kw2['uid']))
            m.event('steps')
            if backend == 'torch':
                m.event('torch_steps')
            if pres:
                m.event('preprocessed')
            if last:
                n_ep += 1
                need_reset = True
                m.event('absorbing_ends' if kw2['absorbing'] else 'horizon_ends')
            cur = nobs
            ps = kw['nps']
            i += 1
        elif kind == 'step':
            m.ok(False, 'step-without-draw')
        i += 1
    kindb, nb = budget
    if kindb == 'steps':
        m.eq(len(exp), nb, 'step-budget')
    else:
        m.eq(n_ep, nb, 'episode-budget')
        m.ok(exp[-1]['last'], 'run-ends-mid-episode')
    for p in pres[:1]:
        m.eq(len(p.updates), len(shown), 'preprocessor-update-count')
        m.ok(all(np.array_equal(a, b) for a, b in zip(p.updates, shown)), 'preprocessor-update-order')
    # step callback
    m.eq(len(samples), len(exp), 'callback-count')
    for s, e in zip(samples, exp):
        for j, f in enumerate(['state', 'action', 'reward', 'next_state', 'absorbing', 'last']):
            m.eq(s[j], np.asarray(e[f], dtype=float), 'callback-sample', f)
    if dataset is not None:
        d = snapshot(dataset)
        m.eq(d['n'], len(exp), 'dataset-length')
        for f in ['state', 'action', 'reward', 'next_state', 'absorbing', 'last']:
            want = np.array([e[f] for e in exp])
            m.eq(d[f].astype(float), want.astype(float), 'dataset-' + f)
        if stateful:
            m.eq(d['ps'], np.array([e['ps'] for e in exp]), 'dataset-policy-state')
            m.eq(d['nps'], np.array([e['nps'] for e in exp]), 'dataset-policy-next-state')
    return exp


def run(m, rng, backend, agent_backend, discrete, stateful, script, horizon, runs, n_pre, episodic=False, odd=False):
    log = Log()
    env = ScriptEnv(script, horizon if horizon else np.inf, log, backend, discrete)
    env.odd = odd
    pol = MonPolicy(log, agent_backend, discrete, stateful)
    agent = MonAgent(env.info, pol, log, episodic=episodic, backend=agent_backend)
    pres = [AffinePre(2., 1.), AffinePre(.5, -3.)][:n_pre]
    for p in pres:
        agent.add_core_preprocessor(p)
    samples = []
    f = lambda s: samples.append([np.array(x, dtype=float) if x is not None else None for x in s[:6]])
    core = Core(agent, env, callback_step=f)
    for r in runs:
        del log[:]
        del samples[:]
        for p in pres:
            p.updates.clear()
        kind, mode, n, per = r
        initial = None
        if mode == 'initial':
            initial = mk(backend, [[-100. - i, i, .5] for i in range(n)])
            ds = core.evaluate(initial_states=initial, quiet=True)
            budget = ('episodes', n)
        elif kind == 'evaluate':
            ds = core.evaluate(**{'n_' + mode: n}, quiet=True)
            budget = (mode, n)
        else:
            core.learn(**{'n_' + mode: n, 'n_' + per[0] + '_per_fit': per[1]}, quiet=True)
            ds = None
            budget = (mode, n)
        hz = horizon if horizon else np.inf
        told = [float(x) for x in ds.info['uid']] if ds is not None and 'uid' in ds.info else None
        exp = check_run(m, log, samples, ds, budget, hz, pres, initial, stateful, backend, kind == 'evaluate')
        if ds is not None and exp:                  # the step informations are returned ready to read
            m.eq(told, [float(e['uid']) for e in exp], 'returned-information', str(r))
            m.event('returned_infos', len(exp))
        m.seen([e['uid'] for e in exp], [e['last'] for e in exp], backend, discrete, stateful, n_pre, r)
    m.sample(script=script, horizon=horizon, runs=runs, backend=backend, stateful=stateful)


class Planner(MonAgent):
    """Like SARSA: learning may choose the next action, which must be played at the next step of the same episode, and only there."""
    p, rs, n = 1., None, 0

    def fit(self, dataset):
        super().fit(dataset)
        if self.rs.rand() < self.p:
            self.n += 1
            self.next_action = mk('torch' if self.info.backend == 'torch' else 'numpy', [-1000. - self.n, .5])
            self.log.add('plan', action=np.array(self.next_action, dtype=float))


def planned(m, rng, backend, script, horizon, runs, per_fit, p_plan, stateful):
    log = Log()
    env = ScriptEnv(script, horizon, log, backend)
    agent = Planner(env.info, MonPolicy(log, backend, False, stateful), log, backend=backend)
    agent.p, agent.rs = p_plan, rng
    core = Core(agent, env)
    for kind, n in runs:
        if kind == 'learn':
            core.learn(n_steps=n, n_steps_per_fit=per_fit, quiet=True)
        elif kind == 'initial':
            core.evaluate(initial_states=mk(backend, [[-100. - i, i, .5] for i in range(n)]), quiet=True)
        else:
            core.evaluate(n_steps=n, quiet=True)
    pending, drawn = None, None
    for k, kw in log:
        if k == 'reset':
            m.event('plans_dropped', int(pending is not None))
            pending = drawn = None
        elif k == 'plan':
            pending = kw['action']
        elif k == 'draw':
            m.ok(pending is None, 'planned-action-ignored', f'{pending}')
            drawn = kw['action']
        elif k == 'step':
            if pending is not None:
                m.eq(kw['action'], pending, 'planned-action')
                m.event('plans_played')
            else:
                m.ok(drawn is not None, 'stale-action', f"{kw['action']}")
                m.eq(kw['action'], drawn, 'stale-action')
            pending = drawn = None
    m.seen(backend, script, horizon, runs, per_fit)


def cases(tier, rng):
    n = 2400 if tier == 'quick' else 12000
    for i in range(n):
        backend = ['numpy', 'torch', 'numpy', 'torch', 'list'][i % 5]
        agent_backend = 'numpy' if backend == 'list' else ['numpy', 'torch'][int(rng.randint(2))]
        horizon = int(rng.choice([1, 2, 3, 5, 8, 0, 13]))
        script = [int(x) for x in rng.randint(0 if horizon else 1, 9, size=rng.randint(1, 6))]
        if rng.rand() < .3:
            script = [max(1, x) for x in script]
        runs = []
        for _ in range(rng.randint(1, 4)):
            kind = ['evaluate', 'learn'][int(rng.rand() < .35)]
            modes = ['steps'] + (['episodes', 'initial'] if horizon else [])
            mode = modes[rng.randint(len(modes))]
            nn = int(rng.randint(1, 25 if mode == 'steps' or rng.rand() < .2 else 7))
            if i % 60 == 59:                # long runs
                nn = int(rng.randint(150, 400))
            if kind == 'learn' and mode == 'initial':
                mode = 'episodes'
            per = [['steps', 'episodes'][int(rng.randint(2))] if horizon else 'steps', int(rng.randint(1, 6))]
            runs.append([kind, mode, nn, per])
        yield run, dict(backend=backend, agent_backend=agent_backend, discrete=bool(rng.rand() < .4) and backend != 'list',
                        stateful=bool(rng.rand() < .4) and backend != 'list', script=script, horizon=horizon, runs=runs,
                        n_pre=int(rng.choice([0, 0, 1, 2])), odd=bool(rng.rand() < .25))
    for i in range(60 if tier == 'quick' else 600):
        runs = [[str(rng.choice(['learn', 'learn', 'initial', 'evaluate'])), int(rng.randint(1, 12))] for _ in range(5)]
        yield planned, dict(backend=['numpy', 'torch'][i % 2], script=[int(x) for x in rng.randint(0, 7, 3)], horizon=int(rng.choice([1, 3, 6])),
                            runs=runs, per_fit=int(rng.choice([1, 1, 2, 3])), p_plan=float(rng.choice([.5, 1.])), stateful=False)
