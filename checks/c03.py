import numpy as np
import torch
from vlib.stubs import *
from vlib.common import Inconclusive
from mushroom_rl.core import VectorCore, VectorizedEnvironment, MDPInfo, Agent
from mushroom_rl.policy import Policy

PROPERTY = 'C03'
RULE = ('random per-environment termination scripts x 2..9 environments x horizons x run budgets (steps, episodes) x fit '
        'periods x backends x stateless/stateful/episodic agents x preprocessors, several runs per loop; distinct by '
        'the digest of the per-environment event logs')
NEED = dict(runs=150, **{'single-interface': 200}, vector_steps=4000, transitions=8000, resets=1500, inactive_env_steps=300, fits=400, imposed_initial_states=100, blocks_with_residual=60,
            episodic_thetas=300, stateful_samples=1000, preprocessed_runs=15, states_shown=1000, callback_blocks=200, info_values=5000)
ASSUMPTIONS = ('vector environments return fresh arrays and no terminal flag for environments that are not addressed',)


class VecEnv(VectorizedEnvironment):
    def __init__(self, n, scripts, horizon, log, backend, info_mode):
        self.scripts, self.log, self.backend, self.info_mode = scripts, log, backend, info_mode
        self.uid = 0
        self.ep = [-1] * n
        self.t = [0] * n
        self.obs = np.zeros((n, 4))
        super().__init__(MDPInfo(box((4,), -1e9, 1e9, backend), box((3,), -1e9, 1e9, backend), .9, horizon,
                                 backend=backend), n)

    def _o(self, i):
        self.uid += 1
        self.obs[i] = [self.uid, i, self.ep[i], self.t[i]]

    def _give(self, x):
        return torch.tensor(x, dtype=torch.float32) if self.backend == 'torch' else x.copy()

    def reset_all(self, env_mask, state=None):
        mask = [bool(x) for x in env_mask]
        for i in range(self._n_envs):
            if mask[i]:
                self.ep[i] += 1
                self.t[i] = 0
                self._o(i)
                if state is not None:
                    self.obs[i] = np.array(state[i], dtype=float)
        self.log.add('reset', mask=mask, obs=self.obs.copy(), given=state is not None)
        return self._give(self.obs), [dict(e=self.ep[i]) if mask[i] else {} for i in range(self._n_envs)]

    def step_all(self, env_mask, action):
        mask = [bool(x) for x in env_mask]
        n = self._n_envs
        r = np.full(n, -12345.)
        ab = np.zeros(n, dtype=bool)
        infos = [{} for _ in range(n)]
        act = np.array(action, dtype=float)
        prev = self.obs.copy()
        for i in range(n):
            if mask[i]:
                self.t[i] += 1
                self._o(i)
                s = self.scripts[i]
                k = s[self.ep[i] % len(s)]
                ab[i] = bool(k and self.t[i] >= k)
                r[i] = self.uid + .25
                infos[i] = dict(uid=self.uid, sub=dict(v=2. * self.uid))
        self.log.add('step', mask=mask, prev=prev, action=act, obs=self.obs.copy(), reward=r.copy(), ab=ab.copy(),
                     t=list(self.t))
        if self.info_mode == 'dict':
            u = np.array([d.get('uid', np.nan) for d in infos], dtype=float)
            infos = dict(uid=self._give(u), sub=dict(v=self._give(2 * u)))
        if self.backend == 'torch':
            return self._give(self.obs), torch.tensor(r, dtype=torch.float32), torch.tensor(ab), infos
        return self._give(self.obs), r, ab, infos


class VecPolicy(Policy):
    def __init__(self, n, log, backend, stateful):
        super().__init__((2,) if stateful else None)
        self.n, self.log, self.backend = n, log, backend
        self.k = 0

    def draw_action(self, state, policy_state=None):
        self.k += 1
        s = np.array(state, dtype=float)
        a = np.stack([np.full(self.n, self.k), np.arange(self.n), s[:, 0]], 1).astype(float)
        nps = None
        if self.is_stateful:
            nps = np.stack([self.k + .5 * np.ones(self.n), np.arange(self.n)], 1)
        self.log.add('draw', state=s, action=a, nps=nps,
                     ps=None if policy_state is None else np.array(policy_state, dtype=float))
        return mk(self.backend, a), None if nps is None else mk(self.backend, nps)

    def reset(self):
        if not self.is_stateful:
            return None
        self.k += 1
        p = np.stack([-self.k * np.ones(self.n), np.arange(self.n)], 1)
        self.log.add('policy_reset', ps=p)
        return mk(self.backend, p)


class VecAgent(Agent):
    def __init__(self, info, policy, log, episodic, backend):
        super().__init__(info, policy, is_episodic=episodic, backend=backend)
        self.log = log
        self.k = 0

    def episode_start_vectorized(self, initial_states, episode_info, start_mask):
        ps, _ = super().episode_start_vectorized(initial_states, episode_info, start_mask)
        th = None
        n = len(start_mask)
        if self.info.is_episodic:
            self.k += 1
            th = np.stack([np.full(n, self.k), np.arange(n)], 1).astype(float)
        self.log.add('episode_start', mask=[bool(x) for x in start_mask], theta=th,
                     state=np.array(initial_states, dtype=float), info=list(episode_info))
        return ps, th

    def fit(self, dataset):
        self.log.add('fit', data=snapshot(dataset))

    def stop(self):
        self.log.add('agent_stop')


def _flat(per_env, final_row):
    """env-major concatenation; the newest stored row of every environment closes its trajectory."""
    out = []
    for i, tr in enumerate(per_env):
        tr = [dict(x) for x in tr]
        if tr and tr[-1]['row'] == final_row:
            tr[-1]['last'] = True
        out += tr
    return out


def _compare(m, d, want, stateful, what, pre):
    m.eq(d['n'], len(want), what + '-size')
    if not want:
        return
    for f in ('state', 'action', 'reward', 'next_state', 'absorbing', 'last'):
        m.eq(d[f].astype(float), np.array([w[f] for w in want]).astype(float), f'{what}-{f}')
    if stateful:
        m.ok('ps' in d, what + '-policy-state-lost', 'the run of a stateful policy has no policy states')
        m.eq(d['ps'], np.array([w['ps'] for w in want]), what + '-policy-state')
        m.eq(d['nps'], np.array([w['nps'] for w in want]), what + '-policy-next-state')
        m.event('stateful_samples', len(want))
    m.ok('info_error' not in d, what + '-info-unreadable', d.get('info_error'))
    m.eq(d['info']['uid'], np.array([w['uid'] for w in want], dtype=float), what + '-info')
    m.eq(d['info']['sub_v'], 2 * np.array([w['uid'] for w in want], dtype=float), what + '-nested-info')
    m.event('info_values', len(want))


def run(m, rng, n, scripts, horizon, backend, agent_backend, stateful, episodic, pre, runs, info_mode):
    log = Log()
    env = VecEnv(n, scripts, horizon, log, backend, info_mode)
    pol = VecPolicy(n, log, agent_backend, stateful)
    agent = VecAgent(env.info, pol, log, episodic, agent_backend)
    f = lambda x: x
    if pre:
        watch = AffinePre(2., 1.)
        agent.add_core_preprocessor(watch)
        if pre == 2:
            agent.add_core_preprocessor(AffinePre(1., -3.))
        f = (lambda x: x * 2. + 1.) if pre == 1 else (lambda x: x * 2. + 1. - 3.)
    cbs = [lambda d: log.add('cb', data=snapshot(d.flatten() if hasattr(d, 'flatten') else d)), lambda d: log.add('cb2')]
    core = VectorCore(agent, env, callbacks_fit=cbs, callback_step=lambda s: log.add('sample'))
    for kind, mode, cnt, per in runs:
        del log[:]
        if kind == 'evaluate':
            s0 = None
            if mode == 'initial':
                s0 = np.arange(4. * cnt).reshape(cnt, 4) + 1e6
                ds = core.evaluate(initial_states=torch.tensor(s0, dtype=torch.float32) if backend == 'torch' else s0,
                                   quiet=True)
                mode = 'episodes'
            else:
                ds = core.evaluate(**{'n_' + mode: cnt}, quiet=True)
            per = None
            used = 0
        else:
            core.learn(**{'n_' + mode: cnt, f'n_{per[0]}_per_fit': per[1]}, quiet=True)
        if pre:
            # a running preprocessor has been shown every state the active environments produced
            shown = {tuple(np.asarray(x, dtype=np.float32)) for u in watch.updates for x in u}
            for k, e in log:
                if k in ('reset', 'step'):
                    for i in range(n):
                        if e['mask'][i]:
                            m.ok(tuple(np.asarray(e['obs'][i], dtype=np.float32)) in shown, 'preprocessor-not-updated', f'{k} of environment {i}')
                            m.event('states_shown')
            watch.updates.clear()
        # ---- replay the log through an independent automaton ------------------------------------------------------
        ended = [True] * n                    # environments that need a reset before acting
        running = [False] * n
        started = [False] * n
        obs = None
        ps = None
        hist = [[] for _ in range(n)]          # pending samples per env
        thetas = [[] for _ in range(n)]
        steps = eps = 0
        row = 0
        fit_steps = fit_eps = 0
        due = False
        i = 0
        draw = None
        done = lambda: steps >= cnt if mode == 'steps' else eps >= cnt
        while i < len(log):
            k, e = log[i]
            i += 1
            if k in ('reset', 'step'):
                m.ok(not done(), 'ran-too-long', f'{k} after the budget {mode}={cnt} was spent')
                m.ok(not due, 'fit-late', 'environment used while a fit is due')
            if k == 'reset':
                m.event('resets', sum(e['mask']))
                for j in range(n):
                    if e['mask'][j]:
                        m.ok(ended[j], 'reset-of-running-env', f'env {j} was reset in the middle of its episode')
                        ended[j] = False
                        running[j] = True
                        started[j] = True
                        if kind == 'evaluate' and s0 is not None:
                            m.eq(e['obs'][j], s0[used], 'initial-state', f'episode {used}')
                            used += 1
                            m.event('imposed_initial_states')
                        else:
                            m.ok(not e['given'], 'unrequested-initial-state')
                obs = e['obs']
            elif k == 'policy_reset':
                preset = e['ps']
                if ps is None:
                    ps = preset.copy()
                else:
                    pending_ps = preset
            elif k == 'episode_start':
                if stateful:
                    for j in range(n):
                        if e['mask'][j]:
                            ps[j] = preset[j]
                prev_reset = [x for x in log[:i] if x[0] == 'reset'][-1][1]['mask']
                m.eq(e['mask'], prev_reset, 'episode-start-mask')
                if episodic:
                    for j in range(n):
                        if e['mask'][j]:
                            thetas[j].append(e['theta'][j])
                            m.event('episodic_thetas')
            elif k == 'draw':
                draw = e
                m.eq(e['state'], f(obs), 'policy-saw', 'observation given to the policy')
                if stateful:
                    act_rows = [j for j in range(n) if running[j]]
                    m.eq(e['ps'][act_rows], ps[act_rows], 'policy-memory')
            elif k == 'step':
                m.event('vector_steps')
                m.eq(e['action'], draw['action'], 'action-routing')
                for j in range(n):
                    if e['mask'][j]:
                        m.ok(running[j] and not ended[j], 'step-of-unreset-env',
                             f'env {j} stepped while its episode is over or not started')
                        last = bool(e['ab'][j]) or e['t'][j] >= horizon
                        hist[j].append(dict(state=f(e['prev'][j]), action=draw['action'][j], reward=e['reward'][j],
                                            next_state=f(e['obs'][j]), absorbing=bool(e['ab'][j]), last=last, row=row,
                                            uid=e['obs'][j][0], ps=None if ps is None else ps[j].copy(),
                                            nps=None if ps is None else draw['nps'][j].copy()))
                        steps += 1
                        fit_steps += 1
                        eps += last
                        fit_eps += last
                        if last:
                            ended[j] = True
                            running[j] = False
                        m.event('transitions')
                    else:
                        m.event('inactive_env_steps')
                        m.ok(not running[j], 'running-env-skipped', f'env {j} has a running episode but was not moved')
                row += 1
                obs = e['obs']
                if ps is not None:
                    ps = draw['nps'].copy()
                m.ok(any(e['mask']), 'no-env-moved', '')
                if mode == 'steps' and per is None or (per and per[0] == 'steps' and mode == 'steps'):
                    m.ok(all(e['mask']), 'env-left-out', 'with a step budget every environment must be moved')
                if per:
                    due = (fit_steps if per[0] == 'steps' else fit_eps) >= per[1]
            elif k == 'fit':
                m.ok(per is not None, 'fit-during-evaluation')
                m.ok(due, 'fit-early', f'{fit_steps} steps, {fit_eps} episodes, period {per}')
                due = False
                want = _flat(hist, row - 1)
                if per[0] == 'steps':
                    if len(want) > per[1]:
                        m.event('blocks_with_residual')
                    take = want[:per[1]]
                else:
                    take = want
                    m.eq(fit_eps, per[1], 'fit-episode-count')
                _compare(m, e['data'], take, stateful, 'fit', pre)
                if episodic and per[0] == 'episodes':
                    m.eq(e['data']['theta'], [t for l in thetas for t in l], 'fit-theta')
                    m.eq(len(e['data']['theta']), int(e['data']['last'].sum()), 'fit-theta-per-episode')
                m.eq([x[0] for x in log[i:i + 2]], ['cb', 'cb2'], 'fit-callbacks')
                _compare(m, log[i][1]['data'], take, stateful, 'callback', pre)
                m.event('callback_blocks')
                gone = {w['uid'] for w in take}
                hist = [[x for x in h if x['uid'] not in gone] for h in hist]
                thetas = [[] for _ in range(n)]
                fit_steps, fit_eps = sum(map(len, hist)), 0
                due = per[0] == 'steps' and fit_steps >= per[1]
                m.event('fits')
                if per[0] == 'episodes':
                    m.ok(not any(running), 'episodes-cut-by-fit', 'an episode was still running at the fit')
            elif k == 'agent_stop':
                m.event('stops')
        m.ok(done(), 'stopped-early', f'{steps} steps, {eps} episodes of {mode}={cnt}')
        if mode == 'steps':
            m.ok(steps - cnt < n, 'step-overshoot', f'{steps} steps for a budget of {cnt} with {n} environments')
        elif per is None:
            m.eq(eps, cnt, 'episode-count')
            m.ok(not any(running), 'running-at-end', 'an episode was left running in a run of complete episodes')
        if kind == 'evaluate':
            d = snapshot(ds)
            _compare(m, d, _flat(hist, row - 1), stateful, 'evaluate', pre)
            if episodic:
                m.eq(d['theta'], [t for l in thetas for t in l], 'evaluate-theta')
        m.eq(len([1 for x in log if x[0] == 'sample']), len([1 for x in log if x[0] == 'step']), 'step-callback-count')
        if pre:
            m.event('preprocessed_runs')
        m.event('runs')
        m.seen([(x[0], x[1].get('mask'), x[1].get('obs')) for x in log if x[0] in ('reset', 'step')])
        m.sample(kind=kind, mode=mode, budget=cnt, per=per, envs=n, steps=steps, episodes=eps)


def single(m, rng, n, backend):
    """the single-environment interface resets and moves the selected environment and leaves the others alone"""
    log = Log()
    env = VecEnv(n, [[0]] * n, 100, log, backend, 'list')
    env.reset_all(np.ones(n, bool))
    m.eq(env.number, n, 'number-of-environments')
    cur = 0
    for _ in range(25):
        u = rng.rand()
        if u < .2:
            cur = int(rng.randint(n))
            env.set_default_env(cur)
        k = len(log)
        before = env.obs.copy()
        act = rng.randn(n, 3)
        if u < .5:
            st = rng.randn(n, 4) if rng.rand() < .5 else None
            out = env.reset(st)
            want = env.obs.copy()
            m.eq(log[-1][1]['given'], st is not None, 'single-reset-state')
        else:
            out = env.step(mk(backend, act))
            want = env.obs.copy()
            m.close(log[-1][1]['action'], act, 'single-step-action', rtol=1e-6)
        m.event('single-interface')
        m.eq(len(log), k + 1, 'single-interface-calls')
        m.eq(log[-1][1]['mask'], [i == cur for i in range(n)], 'single-interface-mask', f'default environment {cur}')
        others = [i for i in range(n) if i != cur]
        m.eq(env.obs[others], before[others], 'single-interface-others')
        m.close(np.array(out[0], dtype=float)[cur], want[cur], 'single-interface-state', rtol=1e-6)
    m.raises(AssertionError, lambda: env.set_default_env(n), 'default-environment-range')


def cases(tier, rng):
    for c in range(12 if tier == 'quick' else 100):
        yield single, dict(n=int(rng.randint(1, 7)), backend=str(rng.choice(['numpy', 'torch'])))
    n = 1500 if tier == 'quick' else 12000
    for c in range(n):
        ne = int(rng.randint(2, 10)) if c % 50 else int(rng.randint(12, 40))
        horizon = int(rng.randint(2, 15))
        scripts = [[int(rng.choice([0, 1, 2, 3, int(rng.randint(1, 16))])) for _ in range(rng.randint(1, 4))]
                   for _ in range(ne)]
        be = str(rng.choice(['numpy', 'torch']))
        episodic = bool(rng.rand() < .3)
        runs = []
        for _ in range(rng.randint(1, 4)):
            kind = str(rng.choice(['learn', 'evaluate']))
            mode = str(rng.choice(['steps', 'episodes', 'initial'] if kind == 'evaluate' else ['steps', 'episodes']))
            cnt = int(rng.randint(1, 80)) if mode == 'steps' else int(rng.randint(1, 25))
            per = ('steps', ne * int(rng.randint(1, 6)) if rng.rand() < .4 else int(rng.randint(1, 40))) if rng.rand() < .5 and not episodic else \
                ('episodes', int(rng.randint(1, 12)))
            if kind == 'learn' and mode == 'episodes' and not episodic and rng.rand() < .5:
                cnt, per = int(rng.randint(ne, 3 * ne)), ('steps', int(rng.randint(ne, 3 * ne)))     # environments drop out between fits
            if kind == 'learn' and mode == 'steps':
                cnt *= 3
            runs.append([kind, mode, cnt, per])
        yield run, dict(n=ne, scripts=scripts, horizon=horizon, backend=be,
                        agent_backend=str(rng.choice(['numpy', 'torch'])) if rng.rand() < .3 else be,
                        stateful=bool(rng.rand() < .3), episodic=episodic, pre=int(rng.choice([0, 0, 1, 2])),
                        runs=runs, info_mode=str(rng.choice(['list', 'dict'])))
