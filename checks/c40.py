"""C40: collection callbacks record the learning history."""
import numpy as np

from mushroom_rl.algorithms.value import QLearning, DoubleQLearning, SARSA, WeightedQLearning, MaxminQLearning
from mushroom_rl.core import Agent, Core, VectorCore, VectorizedEnvironment, MDPInfo
from mushroom_rl.policy.policy import Policy
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.policy import EpsGreedy
from mushroom_rl.rl_utils.parameters import Parameter, DecayParameter, LinearParameter
from mushroom_rl.utils.callbacks import CollectDataset, CollectMaxQ, CollectParameters, CollectQ
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from vlib.agents import finite

PROPERTY = 'C40'
RULE = ('tabular agents are trained by the real Core with all collection callbacks attached next to an observer that copies the transitions, the value table '
        'and the parameter at every fit callback; the collected histories are compared with these copies at once, after more training and after cleaning')
NEED = {'fit-callback': 3000, 'history-compared': 300, 'clean': 100, 'late-comparison': 100, 'transitions': 5000, 'tables': 2000, 'parallel-transitions': 1000}

AG = dict(q=QLearning, sarsa=SARSA, double=DoubleQLearning, weighted=WeightedQLearning, maxmin=MaxminQLearning)


def table(Q):
    """value table of an approximator, as the values of all states and actions"""
    if hasattr(Q, 'table'):
        return np.array(Q.table, copy=True)
    return np.mean([np.array(x.table) for x in Q.model], axis=0)


def predicted(Q, s):
    return float(np.max(np.asarray(Q.predict(np.array(s)))))


def run(m, rng, kind, per, phases):
    np.random.seed(int(rng.randint(1 << 30)))
    ns, na = int(rng.randint(2, 6)), int(rng.randint(1, 4))
    env = finite(ns, na, gamma=.9, horizon=int(rng.randint(2, 9)), seed=int(rng.randint(1000)))
    sched = int(rng.randint(3))
    size = (ns, na) if rng.rand() < .5 else (1,)
    lr = [Parameter(.3), DecayParameter(.9, exp=.6, size=size), LinearParameter(.9, .1, 50, size=size)][sched]
    kw = dict(n_tables=int(rng.randint(2, 4))) if kind == 'maxmin' else {}
    eps = LinearParameter(.9, .1, 100)
    agent = AG[kind](env.info, EpsGreedy(eps), lr, **kw)
    idx = (int(rng.randint(ns)), int(rng.randint(na))) if size != (1,) and sched else ()
    probe = int(rng.randint(ns))
    cd, cq, cm = CollectDataset(), CollectQ(agent.Q), CollectMaxQ(agent.Q, np.array([probe]))
    par = lr
    if rng.rand() < .5:
        par, idx = eps, ()
    cp = CollectParameters(par, *idx)
    seen = dict(s=[], q=[], mq=[], p=[])

    def observe(d):
        seen['s'] += [[np.array(x, float).ravel().tolist() for x in (a, b, c, e, f)] for a, b, c, e, f in zip(d.state, d.action, d.reward, d.next_state, d.absorbing)]
        seen['q'].append(table(agent.Q))
        seen['mq'].append(predicted(agent.Q, [probe]))
        seen['p'].append(np.array(par.get_value(*idx), float).copy())
        m.event('fit-callback')
    cbs = [observe, cd, cq, cm, cp]
    cbs = [cbs[i] for i in rng.permutation(5)]
    core = Core(agent, env, callbacks_fit=cbs)
    early = []

    def compare(what):
        d = cd.get()
        m.event('history-compared')
        if not seen['s']:
            m.ok(d is None or len(d) == 0, 'dataset', f'{what}: nothing was collected')
        else:
            m.eq(len(d), len(seen['s']), 'dataset', f'{what}: number of transitions')
            got = [[np.array(x, float).ravel().tolist() for x in (a, b, c, e, f)] for a, b, c, e, f in zip(d.state, d.action, d.reward, d.next_state, d.absorbing)]
            m.eq(got, seen['s'], 'dataset', f'{what}: collected transitions')
            m.event('transitions', len(got))
        m.eq(len(cq.get()), len(seen['q']), 'q', f'{what}: number of value tables')
        m.eq(len(cm.get()), len(seen['mq']), 'max-q', f'{what}: number of maximal values')
        m.eq(len(cp.get()), len(seen['p']), 'parameter', f'{what}: number of parameter values')
        for g, w in zip(cq.get(), seen['q']):
            m.close(np.array(g), w, 'q', f'{what}: recorded value table', rtol=1e-10, atol=1e-12)
            m.event('tables')
        m.close(np.array(cm.get(), float), np.array(seen['mq']), 'max-q', f'{what}: recorded maximal values', rtol=1e-10, atol=1e-12)
        m.close(np.array([np.array(x, float).ravel() for x in cp.get()]), np.array([x.ravel() for x in seen['p']]), 'parameter', f'{what}: recorded parameter values', rtol=1e-10, atol=1e-12)
    if rng.rand() < .3:
        cd.clean(), cq.clean(), cm.clean(), cp.clean()
        compare('cleaned before any learning')
    for ph in phases:
        if ph == 'clean':
            kept = [(cq.get(), [x.copy() for x in cq.get()]), (cm.get(), list(cm.get())), (cp.get(), list(cp.get()))]
            cd.clean(), cq.clean(), cm.clean(), cp.clean()
            for k in seen:
                seen[k] = []
            m.event('clean')
            compare('after clean')
            for g, w in kept:
                m.ok(len(g) == len(w) and all(np.array_equal(a, b) for a, b in zip(g, w)), 'clean-destroys', 'cleaning changed a history handed out before')
        elif ph == 'evaluate':
            core.evaluate(n_steps=int(rng.randint(1, 6)), quiet=True)
            compare('after evaluation')
        else:
            n = per * int(rng.randint(1, 8))
            core.learn(n_steps=n, n_steps_per_fit=per, quiet=True)
            compare('after learning')
            early.append(1)
            if len(early) > 1:
                m.event('late-comparison')
    m.seen(kind, per, tuple(phases), sched, size, ns, na)


class Rows(VectorizedEnvironment):
    """Parallel chains of different length: the state is (environment, serial number)."""

    def __init__(self, n, ends, horizon):
        self.k, self.t, self.ends = 0, [0] * n, ends
        self.obs = np.zeros((n, 2))
        super().__init__(MDPInfo(Box(-np.inf, np.inf, (2,)), Box(-np.inf, np.inf, (1,)), .9, horizon), n)

    def _next(self, i):
        self.k += 1
        self.obs[i] = [i, self.k]

    def reset_all(self, env_mask, state=None):
        for i in np.flatnonzero(env_mask):
            self.t[i] = 0
            self._next(i)
        return self.obs.copy(), [{} for _ in env_mask]

    def step_all(self, env_mask, action):
        ab = np.zeros(len(env_mask), bool)
        for i in np.flatnonzero(env_mask):
            self.t[i] += 1
            self._next(i)
            ab[i] = self.ends[i] and self.t[i] >= self.ends[i]
        return self.obs.copy(), self.obs[:, 1] * .5, ab, [{} for _ in env_mask]


class Zero(Policy):
    def draw_action(self, state, policy_state=None):
        return np.array(state)[:, 1:] + .25, None

    def reset(self):
        return None


def parallel(m, rng, n, per, unit, phases):
    """The dataset collected along a parallel run holds every transition given to the agent, and keeps it."""
    env = Rows(n, [int(rng.choice([0, 1, 2, 3, 5])) for _ in range(n)], int(rng.randint(2, 7)))
    given = []

    class Watch(Agent):
        def fit(self, d):
            given.extend(rows(d))

    def rows(d):
        return [[np.array(x, float).ravel().tolist() for x in q] for q in zip(d.state, d.action, d.reward, d.next_state, d.absorbing)]
    cd = CollectDataset()
    core = VectorCore(Watch(env.info, Zero()), env, callbacks_fit=[cd])
    for ph in phases:
        if ph == 'clean':
            cd.clean()
            del given[:]
            m.event('clean')
        else:
            core.learn(**{f'n_{unit}': per * int(rng.randint(1, 6)), f'n_{unit}_per_fit': per}, quiet=True)
        d = cd.get()
        m.eq(0 if d is None else len(d), len(given), 'parallel-dataset', f'{ph}: number of transitions')
        if given:
            m.eq(rows(d), given, 'parallel-dataset', 'collected transitions')
            m.event('parallel-transitions', len(given))
    m.seen('parallel', n, per, unit, tuple(phases))


class Live(Parameter):
    """user parameter with one value per component, kept in an array that is updated in place"""

    def __init__(self, v):
        super().__init__(0.)
        self.v = v

    def _compute(self, *idx, **kw):
        return self.v


def values(m, rng):
    """the value callbacks on approximators of every kind, called directly, with values of both signs"""
    d, na = int(rng.randint(1, 4)), int(rng.randint(1, 5))
    reg = Regressor(LinearApproximator, input_shape=(d,), output_shape=(na,))
    rows = int(rng.randint(1, 4))
    x = rng.randn(d) if rng.rand() < .5 else rng.randn(rows, d)
    par = Live(rng.randn(3))
    cm, cp = CollectMaxQ(reg, x), CollectParameters(par)
    want, pars = [], []
    for _ in range(int(rng.randint(1, 8))):
        w = rng.randn(na * d) - float(rng.choice([0., 3.]))
        reg.set_weights(w)
        par.v += rng.randn(3)
        pars.append(par.v.copy())
        want.append(np.max(np.atleast_2d(x) @ w.reshape(na, d).T))
        cm(None), cp(None)
        m.close(np.array(cm.get(), float), np.array(want), 'max-q-values', f'linear approximator, state shape {np.shape(x)}', rtol=1e-9, atol=1e-12)
        m.close(np.array(cp.get()), np.array(pars), 'parameter-values', 'array-valued parameter updated in place')
        m.event('direct')
    m.seen('values', d, na, np.ndim(x))


def cases(tier, rng):
    for i in range(60 if tier == 'quick' else 600):
        yield 'values', {}
    for i in range(60 if tier == 'quick' else 600):
        phases = [str(x) for x in rng.choice(['learn', 'learn', 'learn', 'clean'], size=int(rng.randint(1, 6)))]
        yield 'parallel', dict(n=int(rng.randint(2, 5)), per=int(rng.randint(1, 7)), unit=str(rng.choice(['steps', 'episodes'])), phases=['learn'] + phases)

    for i in range(300 if tier == 'quick' else 4000):
        kind = list(AG)[i % len(AG)]
        phases = [str(x) for x in rng.choice(['learn', 'learn', 'learn', 'clean', 'evaluate'], size=int(rng.randint(2, 9)))]
        yield 'run', dict(kind=kind, per=1, phases=['learn'] + phases)
