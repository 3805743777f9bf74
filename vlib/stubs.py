"""Instrumented environment / policy / agent used at the boundaries of the interaction loops.

Every observation, action, reward, policy memory and parameter vector carries a unique id, so that a history identifies
unambiguously which event produced which datum."""
import numpy as np
import torch

from mushroom_rl.core import Environment, MDPInfo, Agent
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils.spaces import Box, Discrete


def mk(backend, x, kind='float'):
    if backend == 'torch':
        return torch.tensor(x, dtype=torch.float32 if kind == 'float' else torch.int64)
    return np.array(x, dtype=float if kind == 'float' else int)


class Log(list):
    def add(self, kind, **kw):
        self.append((kind, kw))

    def of(self, kind):
        return [kw for k, kw in self if k == kind]


def box(shape, lo, hi, backend):
    if backend == 'torch':
        return Box(np.full(shape, lo), np.full(shape, hi), data_type=torch.float32)
    return Box(np.full(shape, lo), np.full(shape, hi))


class ScriptEnv(Environment):
    """Episode e terminates after script[e] steps (0: never terminates by itself)."""
    odd = False                                     # rewards that are zero, negative, infinite or not a number

    def __init__(self, script, horizon, log, backend='numpy', discrete=False, gamma=.9, info_keys=True):
        self.script = script
        self.log = log
        self.uid = 0
        self.ep = -1
        self.t = 0
        self.backend = backend
        self.info_keys = info_keys
        obs = box((3,), -1e9, 1e9, backend)
        if discrete:
            act = Discrete(1000000)
            if backend == 'torch':
                act = _TorchDiscrete(1000000)
        else:
            act = box((2,), -1e9, 1e9, backend)
        super().__init__(MDPInfo(obs, act, gamma, horizon, backend=backend))

    def _obs(self):
        self.uid += 1
        return mk(self.backend, [self.uid, self.ep, self.t])

    def reset(self, state=None):
        self.ep += 1
        self.t = 0
        if state is not None:
            o = state
        else:
            o = self._obs()
        self.log.add('reset', given=None if state is None else np.array(state, dtype=float), obs=np.array(o, dtype=float))
        return o, {}

    def step(self, action):
        self.t += 1
        o = self._obs()
        n = self.script[self.ep % len(self.script)]
        absorbing = bool(n and self.t >= n)
        r = self.uid + .25
        if self.odd and self.uid % 3:
            r = [0., float('nan'), float('inf'), -r, -0.][self.uid % 5]
        self.log.add('step', action=np.array(action, dtype=float), obs=np.array(o, dtype=float), reward=r,
                     absorbing=absorbing, uid=self.uid, t=self.t)
        info = dict(uid=self.uid, sub=dict(v=self.uid * 2)) if self.info_keys else {}
        if self.backend == 'torch':
            return o, torch.tensor(r), torch.tensor(absorbing), info
        return o, r, absorbing, info

    def stop(self):
        self.log.add('env_stop')


class _TorchDiscrete(Discrete):
    @property
    def data_type(self):
        return torch.int64


class MonPolicy(Policy):
    def __init__(self, log, backend, discrete=False, stateful=False):
        super().__init__((2,) if stateful else None)
        self.log = log
        self.backend = backend
        self.discrete = discrete
        self.n = 0
        self.m = 0

    def draw_action(self, state, policy_state=None):
        self.n += 1
        a = mk(self.backend, [self.n], 'int') if self.discrete else mk(self.backend, [self.n, -self.n])
        nxt = None
        if self.is_stateful:
            self.m += 1
            nxt = mk(self.backend, [self.m, 7.])
        self.log.add('draw', state=np.array(state, dtype=float), action=np.array(a, dtype=float),
                     ps=None if policy_state is None else np.array(policy_state, dtype=float),
                     nps=None if nxt is None else np.array(nxt, dtype=float), typ=type(state).__name__)
        return a, nxt

    def reset(self):
        p = None
        if self.is_stateful:
            self.m += 1
            p = mk(self.backend, [self.m, 3.])
        self.log.add('policy_reset', ps=None if p is None else np.array(p, dtype=float))
        return p


class MonAgent(Agent):
    def __init__(self, mdp_info, policy, log, episodic=False, backend='numpy'):
        super().__init__(mdp_info, policy, is_episodic=episodic, backend=backend)
        self.log = log
        self.k = 0

    def episode_start(self, initial_state, episode_info):
        ps, _ = super().episode_start(initial_state, episode_info)
        theta = None
        if self.info.is_episodic:
            self.k += 1
            theta = np.array([self.k, self.k * .5])
        self.log.add('episode_start', state=np.array(initial_state, dtype=float), theta=theta)
        return ps, theta

    def fit(self, dataset):
        self.log.add('fit', data=snapshot(dataset), ident=id(dataset))

    def stop(self):
        self.log.add('agent_stop')


def snapshot(dataset):
    """Deep copy of everything observable in a dataset."""
    f = lambda x: np.array([np.array(v, dtype=float) for v in x], dtype=float)
    d = dict(state=f(dataset.state), action=f(dataset.action), reward=f(dataset.reward),
             next_state=f(dataset.next_state), absorbing=np.array([bool(v) for v in dataset.absorbing]),
             last=np.array([bool(v) for v in dataset.last]), n=len(dataset),
             theta=[np.array(t, dtype=float) for t in (dataset.theta_list or [])])
    if dataset.is_stateful:
        d['ps'] = f(dataset.policy_state)
        d['nps'] = f(dataset.policy_next_state)
    try:
        dataset.info.parse()
        info = dataset.info
        d['info'] = {k: np.array(info[k], dtype=float) for k in info}
    except Exception as e:
        d['info_error'] = repr(e)
    return d


class AffinePre:
    """State preprocessor: x -> a x + b, remembers the order of what it was shown."""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.updates = []

    def __call__(self, x):
        return x * self.a + self.b

    def update(self, x):
        self.updates.append(np.array(x, dtype=float))
