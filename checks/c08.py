"""C08: saved components come back behaving identically."""
import copy
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import torch
import torch.nn.functional as F
from sklearn.ensemble import ExtraTreesRegressor
from sklearn.linear_model import LinearRegression

from mushroom_rl.algorithms.actor_critic.deep_actor_critic.sac import SACPolicy
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.approximators.table import Table
from mushroom_rl.approximators.parametric import CMAC, LinearApproximator, NumpyTorchApproximator, TorchApproximator
from mushroom_rl.core import AgentInfo, Dataset, MDPInfo, Serializable, VectorizedDataset
from mushroom_rl.core.dataset import DatasetInfo
from mushroom_rl.core.extra_info import ExtraInfo
from mushroom_rl.features import Features
from mushroom_rl.features.basis import GaussianRBF
from mushroom_rl.features.tiles import Tiles
from mushroom_rl.policy import (Boltzmann, BoltzmannTorchPolicy, ClippedGaussianPolicy, DeterministicPolicy, DiagonalGaussianPolicy,
                                EpsGreedy, GaussianPolicy, GaussianTorchPolicy, Mellowmax, OrnsteinUhlenbeckPolicy,
                                RecurrentGaussianTorchPolicy, StateLogStdGaussianPolicy, StateStdGaussianPolicy, VectorPolicy)
from mushroom_rl.rl_utils.eligibility_trace import AccumulatingTrace, ReplacingTrace
from mushroom_rl.rl_utils.optimizers import AdamOptimizer, AdaptiveOptimizer, SGDOptimizer
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from mushroom_rl.rl_utils.preprocessors import MinMaxPreprocessor, StandardizationPreprocessor
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory, ReplayMemory, SequenceReplayMemory, SumTree
from mushroom_rl.rl_utils.running_stats import RunningAveragedWindow, RunningExpWeightedAverage, RunningStandardization
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mushroom_rl.rl_utils.variance_parameters import (VarianceDecreasingParameter, VarianceIncreasingParameter, WindowedVarianceIncreasingParameter)
from checks import c05, c07, c20
from checks.c09 import rng_state, set_rng
from vlib import agents, data
from vlib.common import digest
from vlib import nets

PROPERTY = 'C08'
RULE = ('every serializable component class is built three times with the same contents: the original, which is saved and loaded at random '
        'points of a random history of its operations, the loaded twin, and a bystander that is never saved. All three receive the same '
        'operations under the same random state; outputs (values, shapes and array types) must agree from then on. Saving must consume no '
        'random numbers; saving again to the same file must store the latest state; further histories are replayed in a new process')
CASE_LIMIT = 200


class Op:
    """An operation: args(rng) makes its arguments, call(obj, *args) runs it and returns the observable result."""
    def __init__(self, args, call):
        self.args, self.call = args, call


def read(call):
    return Op(lambda r: (), call)


def plain(x):
    """A comparable picture of a result: nested tuples of (type tag, array)."""
    if isinstance(x, torch.Tensor):
        return ('torch', str(x.dtype), x.detach().cpu().numpy().copy())
    if isinstance(x, (np.ndarray, np.generic)):
        x = np.asarray(x)
        return ('numpy', str(x.dtype), x.copy())
    if isinstance(x, Dataset):
        out = [plain(list(getattr(x, f))) for f in c05.FIELDS] + [len(x), plain(list(x.theta_list)), plain(x.info), plain(x.episode_info)]
        if x.is_stateful:
            out += [plain(list(x.policy_state)), plain(list(x.policy_next_state))]
        return tuple(out)
    if isinstance(x, ExtraInfo):
        x.parse()
        return plain({k: x[k] for k in list(x.keys())})
    if isinstance(x, Box):
        return ('Box', plain(x.low), plain(x.high), x.shape, str(x.data_type))
    if isinstance(x, Discrete):
        return ('Discrete', x.n, x.size, x.shape)
    if isinstance(x, dict):
        return ('dict',) + tuple((str(k), plain(x[k])) for k in sorted(x, key=str))
    if isinstance(x, (list, tuple)):
        return tuple(plain(y) for y in x)
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return ('float', np.float64(x))
    return repr(type(x))


def agree(a, b, path=''):
    """None, or a description of the first difference."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return f'{path}: shape {a.shape} became {b.shape}'
        if a.dtype.kind in 'fc':
            return None if np.allclose(a, b, rtol=1e-9 if a.dtype == np.float64 else 1e-5, atol=1e-12 if a.dtype == np.float64 else 1e-7,
                                       equal_nan=True) else f'{path}: {a.ravel()[:4]} became {b.ravel()[:4]}'
        return None if a.dtype.kind == 'O' or np.array_equal(a, b) else f'{path}: {a.ravel()[:4]} became {b.ravel()[:4]}'
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f'{path}: {len(a)} items became {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            e = agree(x, y, f'{path}/{i}')
            if e:
                return e
        return None
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return None if np.isclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True) else f'{path}: {a} became {b}'
    return None if type(a) is type(b) and a == b else f'{path}: {a!r} became {b!r}'


class _Init:
    def weights_init(self):
        for p in self.parameters():
            torch.nn.init.normal_(p, std=.3)


class MLP(_Init, nets.MLP):
    pass


class QNet(_Init, nets.QNet):
    pass


class CriticNet(_Init, nets.CriticNet):
    pass


# ---------------------------------------------------------------- descriptions
def k_box(r):
    d = tuple(int(v) for v in r.randint(1, 4, r.randint(1, 3)))
    how = r.randint(4)
    if how == 0:
        b = Box(float(-r.rand()), float(1 + r.rand()), shape=d)
    elif how == 1:
        b = Box(np.full(d, -np.inf), r.rand(*d), data_type=np.float32)
    elif how == 2:
        b = Box(-r.rand(*d), np.inf * np.ones(d))
    else:
        b = Box(-r.rand(*d), r.rand(*d), data_type=torch.float32)
    return b, dict(all=read(lambda o: (o, o.low, o.high, o.shape)))


def k_discrete(r):
    return Discrete(int(r.randint(1, 9))), dict(all=read(lambda o: (o, o.n, o.size, o.shape, str(o.data_type))))


def k_mdp_info(r):
    o = [k_box, k_discrete][r.randint(2)](r)[0]
    a = [k_box, k_discrete][r.randint(2)](r)[0]
    info = MDPInfo(o, a, float(r.rand()), [int(r.randint(1, 9)), np.inf][r.randint(2)], float(r.rand()), ['numpy', 'torch', 'list'][r.randint(3)])

    def get(i):
        return i.observation_space, i.action_space, i.gamma, i.horizon, i.dt, i.backend, i.shape, i.size if hasattr(o, 'n') and hasattr(a, 'n') else 0
    return info, dict(all=read(get))


def k_agent_info(r):
    i = AgentInfo(bool(r.randint(2)), [None, (3,), (2, 2)][r.randint(3)], ['numpy', 'torch'][r.randint(2)])
    return i, dict(all=read(lambda o: (o.is_episodic, o.is_stateful, o.policy_state_shape, o.backend)))


def k_dataset_info(r):
    b = ['numpy', 'torch', 'list'][r.randint(3)]
    i = DatasetInfo(b, None, [5, np.inf][r.randint(2)], .9, (2,), data.dt(b, 'f'), (1,), data.dt(b, 'i'), [None, (3,)][r.randint(2)], int(r.randint(1, 4)))
    return i, dict(all=read(lambda o: (o.backend, o.device, o.horizon, o.gamma, o.state_shape, str(o.state_dtype), o.action_shape, str(o.action_dtype),
                                       o.policy_state_shape, o.n_envs, o.is_agent_stateful)))


# ---------------------------------------------------------------- schedules, statistics, optimizers
def _idx(r, size):
    return () if size == (1,) else tuple(int(r.randint(k)) for k in size)


def k_parameter(r):
    size = [(1,), (3,), (2, 3)][r.randint(3)]
    p = [lambda: Parameter(float(r.rand()), size=size), lambda: Parameter(float(r.rand()), min_value=.3, max_value=.6, size=size),
         lambda: LinearParameter(1., .1, int(r.randint(2, 15)), size=size), lambda: LinearParameter(.1, 1., int(r.randint(2, 15)), size=size),
         lambda: DecayParameter(1., float(r.rand() + .2), size=size), lambda: DecayParameter(1., .8, min_value=.2, size=size)][r.randint(6)]()
    ix = lambda r: tuple(np.array([v]) for v in _idx(r, size))
    return p, dict(call=Op(ix, lambda o, *i: o(*i)), value=Op(ix, lambda o, *i: o.get_value(*i)), update=Op(ix, lambda o, *i: o.update(*i)),
                   read=read(lambda o: (o.initial_value, o.shape)))


def k_variance_parameter(r):
    size = [(1,), (3,)][r.randint(2)]
    kw = dict(value=float(r.rand()), tol=float(r.choice([.5, 1., 3.])), exponential=bool(r.randint(2)), size=size)
    c = [VarianceIncreasingParameter, VarianceDecreasingParameter, WindowedVarianceIncreasingParameter][r.randint(3)]
    if c is WindowedVarianceIncreasingParameter:
        kw['window'] = int(r.randint(2, 6))
    p = c(**kw)
    ix = lambda r: tuple(np.array([v]) for v in _idx(r, size))
    up = Op(lambda r: (ix(r), float(r.randn())), lambda o, i, t: (o(*i, target=t), o.get_value(*i)))
    return p, dict(step=up, step2=up, step3=up, value=Op(ix, lambda o, *i: o.get_value(*i)))


def k_running(r):
    be = ['numpy', 'torch'][r.randint(2)]
    d = (int(r.randint(1, 4)),)
    mk = (lambda r: (torch.tensor(r.randn(*d), dtype=torch.float32),)) if be == 'torch' else (lambda r: (r.randn(*d),))
    batch = (lambda r: (torch.tensor(r.randn(3, *d), dtype=torch.float32),)) if be == 'torch' else (lambda r: (r.randn(3, *d),))
    init = None if r.rand() < .5 else mk(r)[0]
    s = [lambda: RunningStandardization(d, be, alpha=float(r.choice([1e-32, .01, .3]))), lambda: RunningExpWeightedAverage(d, .3, be, init),
         lambda: RunningAveragedWindow(d, int(r.randint(1, 5)), be, init)][r.randint(3)]()
    if isinstance(s, RunningStandardization):
        return s, dict(up=Op(batch, lambda o, x: o.update_stats(x)), up2=Op(batch, lambda o, x: o.update_stats(x)), mean=read(lambda o: o.mean),
                       std=read(lambda o: o.std), reset=Op(lambda r: (r.rand() < .3,), lambda o, b: o.reset() if b else None))
    return s, dict(up=Op(mk, lambda o, x: o.update_stats(x)), up2=Op(mk, lambda o, x: o.update_stats(x)), mean=read(lambda o: o.mean),
                   reset=Op(lambda r: (r.rand() < .3,), lambda o, b: o.reset() if b else None))


def k_preprocessor(r):
    be = ['numpy', 'torch'][r.randint(2)]
    d = (int(r.randint(1, 4)),)
    lo = np.where(np.arange(d[0]) > 0, -np.inf if r.rand() < .5 else -1., -1 - r.rand(*d))
    info = MDPInfo(Box(lo, np.ones(d) * 2), Discrete(2), .9, 10, backend=be)
    mk = (lambda r: (torch.tensor(r.randn(1, *d) * 2, dtype=torch.float32),)) if be == 'torch' else (lambda r: (r.randn(1, *d) * 2,))
    p = [StandardizationPreprocessor, MinMaxPreprocessor][r.randint(2)](info, be, clip_obs=float(r.choice([.5, 10.])), alpha=float(r.choice([1e-32, .1])))
    return p, dict(call=Op(mk, lambda o, x: o(x)), update=Op(mk, lambda o, x: o.update(x)), update2=Op(mk, lambda o, x: o.update(x)))


def k_optimizer(r):
    n = int(r.randint(1, 5))
    mx = bool(r.randint(2))
    o = [lambda: SGDOptimizer(float(r.rand()), mx), lambda: AdamOptimizer(.1, float(r.rand()), float(r.rand()), 1e-7, mx),
         lambda: AdaptiveOptimizer(.1, mx), lambda: SGDOptimizer(DecayParameter(1., .5), mx),
         lambda: AdamOptimizer(DecayParameter(1., .5), maximize=mx)][r.randint(5)]()
    if isinstance(o, AdaptiveOptimizer):
        a = lambda r: (r.randn(n), r.randn(n), bool(r.randint(2)))
        return o, dict(step=Op(a, lambda o, p, g, nat: o(p, g, 2 * g) if nat else o(p, g)))
    return o, dict(step=Op(lambda r: (r.randn(n), r.randn(n)), lambda o, p, g: o(p, g)))


# ---------------------------------------------------------------- approximators
def k_table(r):
    sh = (4, 3)
    c = [lambda: Table(sh, float(r.randn())), lambda: Table(sh, 2, dtype=int), lambda: ReplacingTrace(sh), lambda: AccumulatingTrace(sh),
         lambda: EnsembleTable(int(r.randint(1, 4)), sh)][r.randint(5)]
    t = c()
    sa = lambda r: (np.array([r.randint(4)]), np.array([r.randint(3)]))
    if isinstance(t, EnsembleTable):
        n = len(t)

        def sete(o, i, s, a, v):
            o[i][s, a] = v
        return t, dict(set=Op(lambda r: (int(r.randint(n)),) + sa(r) + (float(r.randn()),), sete), set2=Op(lambda r: (int(r.randint(n)),) + sa(r) + (float(r.randn()),), sete),
                       predict=Op(lambda r: sa(r)[:1], lambda o, s: (o.predict(s), o.predict(s, compute_variance=True), o.predict(s, prediction='max') if 0 else None)),
                       one=Op(lambda r: (int(r.randint(n)),) + sa(r), lambda o, i, s, a: (o.predict(s, a, idx=i), o.n_actions)))

    def setv(o, s, a, v):
        o[s, a] = v
    ops = dict(set=Op(lambda r: sa(r) + (float(r.randint(9)),), setv), set2=Op(lambda r: sa(r) + (float(r.randint(9)),), setv),
               predict=Op(lambda r: sa(r), lambda o, s, a: (o.predict(s), o.predict(s, a))), fit=Op(lambda r: ((sa(r)), 2.), lambda o, x, y: o.fit(x, y)),
               all=read(lambda o: (np.array([[o[i, j] for j in range(3)] for i in range(4)]), o.shape, o.n_actions)))
    if hasattr(t, 'reset'):
        ops['update'] = Op(sa, lambda o, s, a: o.update(s, a))
        ops['reset'] = Op(lambda r: (r.rand() < .3,), lambda o, b: o.reset() if b else None)
    return t, ops


class Square:
    """Feature vector of a user (picklable)."""
    def __call__(self, x):
        x = np.asarray(x)
        return np.concatenate([x, x ** 2], -1)


def lin(r, d=2, out=2, **kw):
    how = r.randint(3)
    if how == 0:
        return Regressor(LinearApproximator, input_shape=(d,), output_shape=(out,), **kw)
    if how == 1:
        return Regressor(LinearApproximator, input_shape=(2 * d,), output_shape=(out,), phi=Square(), **kw)
    f = Features(basis_list=GaussianRBF.generate([3] * d, [-1.] * d, [1.] * d))
    return Regressor(LinearApproximator, input_shape=(f.size,), output_shape=(out,), phi=f, **kw)


def tf(x):
    return torch.as_tensor(np.asarray(x), dtype=torch.float32)


def _w(o):
    return np.array(o.get_weights())


def setw(scale=1., cast=None):
    def call(o, seed):
        w = np.random.RandomState(seed).randn(o.weights_size) * scale
        o.set_weights(w if cast is None else cast(w))
        return o.weights_size
    return Op(lambda r: (int(r.randint(10 ** 6)),), call)


def k_linear(r):
    kind = ['generic', 'q', 'action', 'cmac', 'ensemble'][r.randint(5)]
    if kind == 'cmac':
        tl = Tiles.generate(3, [4, 4], [-2., -2.], [2., 2.])
        reg = Regressor(CMAC, tilings=tl, input_shape=(2,), output_shape=(2,))
    elif kind == 'generic':
        reg = lin(r)
    elif kind == 'q':
        reg = lin(r, out=3, n_actions=3)
    elif kind == 'action':
        reg = lin(r, out=1, n_actions=3)
    else:
        reg = lin(r, n_models=3)
    x = lambda r: (r.randn(5, 2) * .5,)
    if kind == 'ensemble':
        return reg, dict(fit=Op(lambda r: x(r) + (r.randn(5, 2),), lambda o, x, y: o.fit(x, y)), predict=Op(x, lambda o, x: o.predict(x)),
                         var=Op(x, lambda o, x: (o.predict(x, compute_variance=True), len(o))),
                         one=Op(x, lambda o, x: (o.predict(x, idx=1), o.predict(x, idx=[0, 2], prediction='min'))),
                         member=Op(lambda r: (int(r.randint(3)), int(r.randint(10 ** 6))),
                                   lambda o, i, s: o[i].set_weights(np.random.RandomState(s).randn(o[i].weights_size))))
    ops = dict(set=setw(), predict=Op(x, lambda o, x: o.predict(x)), single=Op(x, lambda o, x: o.predict(x[0])), get=read(_w),
               shapes=read(lambda o: (o.input_shape, o.output_shape, o.weights_size, len(o) if kind == 'action' else 0)))
    xa = lambda r: x(r) + (r.randint(3, size=(5, 1)),)
    if kind in ('q', 'action'):
        ops['qa'] = Op(xa, lambda o, x, a: o.predict(x, a))
        ops['diff'] = Op(xa, lambda o, x, a: o.diff(x[0], a[0]))
    else:
        ops['fit'] = Op(lambda r: x(r) + (r.randn(5, 2),), lambda o, x, y: o.fit(x, y))
        ops['diff'] = Op(x, lambda o, x: o.diff(x[0]))
    if kind == 'action':
        ops['fit'] = Op(lambda r: (r.randn(12, 2), np.arange(12).reshape(-1, 1) % 3, r.randn(12)), lambda o, x, a, y: o.fit(x, a, y))
    return reg, ops


def k_torch(r):
    cls = [TorchApproximator, NumpyTorchApproximator][r.randint(2)]
    tt = cls is TorchApproximator
    c = (lambda x: torch.as_tensor(np.asarray(x, dtype=np.float32))) if tt else (lambda x: np.asarray(x, dtype=np.float32))
    kind = ['generic', 'q', 'two', 'ensemble', 'bare'][r.randint(5)]
    opt = [dict(**{'class': torch.optim.Adam}, params=dict(lr=.05)), dict(**{'class': torch.optim.SGD}, params=dict(lr=.05, momentum=.9))][r.randint(2)]
    kw = dict(input_shape=(2,), output_shape=(3,), optimizer=opt, loss=F.mse_loss, n_features=4, quiet=True)
    if r.rand() < .5:
        kw['batch_size'] = 2
    if r.rand() < .3:
        kw['reinitialize'] = True
    if r.rand() < .3:
        kw['spare'] = True
    if kind == 'bare':
        kw.pop('optimizer')
        kw.pop('loss')
    if kind == 'ensemble':
        kw['n_models'] = 2
    if kind == 'q':
        reg = Regressor(cls, network=QNet, n_actions=3, **kw)
    elif kind == 'two':
        reg = Regressor(cls, network=CriticNet, **dict(kw, input_shape=(3,), output_shape=(1,)))
    else:
        reg = Regressor(cls, network=MLP, **kw)
    x = lambda r: (c(r.randn(5, 2)),)
    xa = lambda r: x(r) + (c(r.randn(5, 1)),)
    y = lambda r, n=3: (c(r.randn(5, n)),)
    a = lambda r: (torch.tensor(r.randint(3, size=(5, 1))) if tt else r.randint(3, size=(5, 1)),)
    ops = dict(shapes=read(lambda o: (o.input_shape, o.output_shape)))
    if kind == 'ensemble':
        ops.update(fit=Op(lambda r: x(r) + y(r), lambda o, x, t: o.fit(x, t)), fit1=Op(lambda r: x(r) + y(r), lambda o, x, t: o.fit(x, t, idx=1)),
                   predict=Op(x, lambda o, x: (o.predict(x), o.predict(x, idx=0), o.predict(x, prediction='max'))))
        return reg, ops
    ops.update(set=setw(.5, (lambda w: torch.tensor(w, dtype=torch.float32)) if tt else None), get=read(lambda o: o.get_weights()))
    if kind == 'q':
        ops.update(predict=Op(x, lambda o, x: o.predict(x)), pa=Op(lambda r: x(r) + a(r), lambda o, x, a: o.predict(x, a)),
                   fit=Op(lambda r: x(r) + a(r) + (c(r.randn(5)),), lambda o, x, a, t: o.fit(x, a, t)),
                   fit2=Op(lambda r: x(r) + a(r) + (c(r.randn(5)),), lambda o, x, a, t: o.fit(x, a, t, n_epochs=2)))
    elif kind == 'two':
        ops.update(predict=Op(xa, lambda o, x, a: o.predict(x, a)), fit=Op(lambda r: xa(r) + (c(r.randn(5)),), lambda o, x, a, t: o.fit(x, a, t)))
    else:
        ops.update(predict=Op(x, lambda o, x: o.predict(x)), diff=Op(x, lambda o, x: o.diff(x[0])))
        if kind == 'generic':
            ops.update(fit=Op(lambda r: x(r) + y(r), lambda o, x, t: o.fit(x, t)),
                       fit3=Op(lambda r: x(r) + y(r), lambda o, x, t: o.fit(x, t, n_epochs=3)))
    return reg, ops


def k_sklearn(r):
    act = bool(r.randint(2))
    cls, kw = (ExtraTreesRegressor, dict(n_estimators=4, random_state=[3, None][r.randint(2)])) if r.rand() < .6 else (LinearRegression, {})
    N = 15
    if act:
        reg = Regressor(cls, input_shape=(2,), output_shape=(1,), n_actions=3, **kw)
        fit = Op(lambda r: (r.randn(N, 2), np.arange(N).reshape(-1, 1) % 3, r.randn(N)), lambda o, x, a, y: o.fit(x, a, y))
    else:
        reg = Regressor(cls, input_shape=(2,), output_shape=(1,), **kw)
        fit = Op(lambda r: (r.randn(N, 2), r.randn(N)), lambda o, x, y: o.fit(x, y))
    return reg, dict(_first=fit, fit=fit, predict=Op(lambda r: (r.randn(4, 2),), lambda o, x: o.predict(x)), shapes=read(lambda o: (o.input_shape, o.output_shape)))


# ---------------------------------------------------------------- policies
def small(r, d=2, out=2, positive=False):
    reg = Regressor(LinearApproximator, input_shape=(d,), output_shape=(out,))
    w = r.randn(reg.weights_size)
    reg.set_weights(np.abs(w) if positive else w)
    return reg


def k_policy(r):
    kind = ['deterministic', 'gaussian', 'diagonal', 'statestd', 'statelogstd', 'clipped', 'ou', 'vector'][r.randint(8)]
    mu = small(r)
    std = small(r, positive=True)
    s = lambda r: (np.abs(r.randn(2)) + .1,)
    A = r.randn(2, 2)
    net = Regressor(TorchApproximator, network=MLP, input_shape=(2,), output_shape=(2,), n_features=4)
    p = dict(deterministic=lambda: DeterministicPolicy(mu), gaussian=lambda: GaussianPolicy(mu, A @ A.T + np.eye(2)),
             diagonal=lambda: DiagonalGaussianPolicy(mu, np.abs(r.randn(2)) + .1), statestd=lambda: StateStdGaussianPolicy(mu, std),
             statelogstd=lambda: StateLogStdGaussianPolicy(mu, std), clipped=lambda: ClippedGaussianPolicy(net, tf(A @ A.T + np.eye(2)), tf(-r.rand(2)), tf(r.rand(2))),
             ou=lambda: OrnsteinUhlenbeckPolicy(net, tf(np.ones(2) * .3), .15, .01, x0=[None, torch.ones(2)][r.randint(2)]),
             vector=lambda: VectorPolicy(DiagonalGaussianPolicy(mu, np.ones(2)), 3))[kind]()
    ops = dict(get=read(lambda o: (np.array(o.get_weights()), o.weights_size if kind != 'vector' else 0)))
    if kind == 'vector':
        def setv(o, seed):
            o.set_weights(np.random.RandomState(seed).randn(len(o), mu.weights_size + 2))
        ops.update(set=Op(lambda r: (int(r.randint(10 ** 6)),), setv), len=read(len),
                   draw=Op(lambda r: (r.randn(3, 2),), lambda o, x: o.draw_action(x[:len(o)], o.reset())[0]),
                   setn=Op(lambda r: (int(r.randint(1, 4)),), lambda o, n: o.set_n(n)),
                   flat=Op(s, lambda o, x: o.get_flat_policy().draw_action(x)))
        return p, ops
    ops['set'] = Op(lambda r: (int(r.randint(10 ** 6)),),
                    lambda o, q: o.set_weights(np.abs(np.random.RandomState(q).randn(o.weights_size))))
    if kind in ('ou', 'clipped'):
        ops['set'] = setw(.5, tf)
        ops['get'] = read(lambda o: o.get_weights())
    if kind == 'ou':
        def run(o, x):
            q = o.reset()
            out = []
            for v in x:
                a, q = o.draw_action(tf(v), q)
                out.append((a, q))
            return out
        ops['draw'] = Op(lambda r: (r.randn(4, 2),), run)
        return p, ops
    ops['draw'] = Op(s, lambda o, x: o.draw_action(tf(x) if kind == 'clipped' else x))
    if kind != 'clipped':
        ops['density'] = Op(lambda r: s(r) + (r.randn(2),), lambda o, x, a: o(x, a))
    if kind in ('gaussian', 'diagonal', 'statestd', 'statelogstd'):
        ops['score'] = Op(lambda r: s(r) + (r.randn(2),), lambda o, x, a: (o.diff_log(x, a), o.diff(x, a)))
    if kind == 'gaussian':
        ops['sigma'] = Op(lambda r: (np.diag(r.rand(2) + .1),), lambda o, x: o.set_sigma(x))
    if kind == 'diagonal':
        ops['std'] = Op(lambda r: (r.rand(2) + .1,), lambda o, x: o.set_std(x))
    return p, ops


class RNN(torch.nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.h = torch.nn.RNN(input_shape[-1], 3, batch_first=True)
        self.o = torch.nn.Linear(3, output_shape[0])

    def forward(self, state, policy_state, lengths):
        y, h = self.h(state.float(), policy_state.reshape(1, -1, 3).float())
        i = (lengths.long() - 1).reshape(-1, 1, 1).expand(-1, 1, 3)
        last = y.gather(1, i).squeeze(1)
        return self.o(last), last.unsqueeze(1) if policy_state.dim() == 3 else last


def k_torch_policy(r):
    kind = ['gaussian', 'boltzmann', 'sac', 'recurrent'][r.randint(4)]
    t = lambda x: torch.as_tensor(np.asarray(x, dtype=np.float32))
    kw = dict(network=MLP, input_shape=(2,), output_shape=(2,), n_features=4)
    if kind == 'gaussian':
        p = GaussianTorchPolicy(std_0=float(r.rand() + .2), **kw)
    elif kind == 'boltzmann':
        p = BoltzmannTorchPolicy(beta=[.7, LinearParameter(.2, 2., 30)][r.randint(2)], **kw)
    elif kind == 'sac':
        mk = lambda: Regressor(TorchApproximator, **kw)
        p = SACPolicy(mk(), mk(), -np.ones(2), np.ones(2) * 2, [-5, Parameter(-3.)][r.randint(2)], 2)
    else:
        p = RecurrentGaussianTorchPolicy(policy_state_shape=(3,), network=RNN, input_shape=(2,), output_shape=(2,), std_0=.5, log_std_min=-1., log_std_max=.5)

    def setp(o, seed):
        g = torch.Generator().manual_seed(seed)
        with torch.no_grad():
            for q in o.parameters():
                q += torch.randn(q.shape, generator=g) * .2
    ops = dict(set=Op(lambda r: (int(r.randint(10 ** 6)),), setp), get=read(lambda o: [q.detach().clone() for q in o.parameters()]))
    s1, sN = (lambda r: (t(r.randn(2)),)), (lambda r: (t(r.randn(4, 2)),))
    if kind == 'recurrent':
        ops['draw'] = Op(lambda r: s1(r) + (t(r.randn(3)),), lambda o, s, h: o.draw_action(s, h))
        ops['reset'] = read(lambda o: o.reset())
        return p, ops
    ops['draw'] = Op(s1, lambda o, s: o.draw_action(s))
    if kind == 'sac':
        ops['logp'] = Op(sN, lambda o, s: (o.compute_action_and_log_prob(s), o.distribution(s).mean))
    else:
        ops['weights'] = read(lambda o: o.get_weights())
        ops['dist'] = Op(sN, lambda o, s: o.distribution(s).mean if kind == 'gaussian' else o.distribution(s).logits)
        ops['ent'] = Op(sN, lambda o, s: o.entropy(s))
        ac = (lambda r: (t(r.randn(4, 2)),)) if kind == 'gaussian' else (lambda r: (torch.tensor(r.randint(2, size=(4, 1))),))
        ops['logp'] = Op(lambda r: sN(r) + ac(r), lambda o, s, a: o.log_prob_t(s, a))
    if kind == 'boltzmann':
        ops['beta'] = Op(lambda r: (float(r.rand()),), lambda o, b: o.set_beta(b))
    return p, ops


def k_td_policy(r):
    kind = ['eps', 'boltzmann', 'mellowmax'][r.randint(3)]
    sched = lambda: [Parameter(float(r.rand())), LinearParameter(1., .2, 9), DecayParameter(1., .7, size=(4,))][r.randint(3)]
    p = dict(eps=lambda: EpsGreedy(sched()), boltzmann=lambda: Boltzmann(sched()), mellowmax=lambda: Mellowmax(Parameter(float(r.rand() * 4 + 1))))[kind]()
    tab = bool(r.randint(2))
    mk = lambda seed: _q(tab, seed)
    p.set_q(mk(int(r.randint(10 ** 6))))
    st = lambda r: (np.array([r.randint(4)]),)
    ops = dict(probs=Op(st, lambda o, s: o(s)), prob=Op(lambda r: st(r) + (np.array([r.randint(3)]),), lambda o, s, a: o(s, a)),
               draw=Op(st, lambda o, s: o.draw_action(s)), newq=Op(lambda r: (int(r.randint(10 ** 6)),), lambda o, q: o.set_q(mk(q))),
               q=Op(st, lambda o, s: o.get_q().predict(s)))
    if kind == 'eps':
        ops['eps'] = Op(lambda r: (float(r.rand()),), lambda o, e: o.set_epsilon(Parameter(e)))
    if kind != 'mellowmax':
        ops['update'] = Op(st, lambda o, s: o.update(s))
    if kind == 'boltzmann':
        ops['beta'] = Op(lambda r: (float(r.rand()),), lambda o, e: o.set_beta(Parameter(e)))
    return p, ops


class OneHot:
    def __call__(self, x):
        return np.eye(4)[np.asarray(x).astype(int).reshape(-1)] if np.ndim(x) > 1 else np.eye(4)[int(np.asarray(x).ravel()[0])]


def _q(tab, seed):
    g = np.random.RandomState(seed)
    if tab:
        q = Table((4, 3))
        for i in range(4):
            for j in range(3):
                q[np.array([i]), np.array([j])] = g.randn() * 3
        return q
    q = Regressor(LinearApproximator, input_shape=(4,), output_shape=(3,), n_actions=3, phi=OneHot())
    q.set_weights(g.randn(q.weights_size) * 3)
    return q


# ---------------------------------------------------------------- distributions
def k_distribution(r):
    kind = ['fixed', 'diagonal', 'cholesky', 'torch-diagonal', 'torch-cholesky'][r.randint(5)]
    k = int(r.randint(1, 4))
    A = r.randn(k, k)
    d = c20.build(kind, r.randn(k), A @ A.T + np.eye(k), np.abs(r.randn(k)) + .2)
    tt = kind.startswith('torch')
    t = (lambda x: torch.as_tensor(np.asarray(x, dtype=np.float32))) if tt else np.asarray
    th = lambda r: (t(r.randn(k)),)
    ops = dict(get=read(lambda o: (o.get_parameters(), o.parameters_size)), set=Op(lambda r: (t(c20.fresh(r, kind, k)),), lambda o, p: o.set_parameters(p)),
               sample=read(lambda o: o.sample()), pdf=Op(th, lambda o, x: (o.log_pdf(x), o(x), o.entropy())), mean=read(lambda o: o.mean()),
               )
    if not tt:
        ops['score'] = Op(th, lambda o, x: o.diff_log(x))
        ops['mle'] = Op(lambda r: (r.randn(12, k),), lambda o, x: o.mle(x))
        ops['wmle'] = Op(lambda r: (r.randn(12, k), r.rand(12) + .2), lambda o, x, w: o.mle(x, w))
    return d, ops


# ---------------------------------------------------------------- memories and datasets
def k_memory(r):
    kind = ['uniform', 'sequence', 'prioritized', 'sumtree'][r.randint(4)]
    be = ['numpy', 'torch'][r.randint(2)]
    ps = (2,) if r.rand() < .5 or kind == 'sequence' else None
    info, ai = data.mdp_info(be, 2, 1), AgentInfo(False, ps, be)
    cap = int(r.randint(6, 20))
    st = data.Stream(np.random.RandomState(r.randint(10 ** 6)), .2, ps=ps)
    ds = lambda r: data.dataset(st.rows(int(r.randint(1, 5))), be, 2, 1, ps)
    n = int(r.randint(1, 3)) if kind != 'sequence' else 1
    if kind == 'uniform':
        o = ReplayMemory(info, ai, int(r.randint(3, cap)), cap)
    elif kind == 'sequence':
        o = SequenceReplayMemory(info, ai, 3, cap, int(r.randint(1, 4)))
    elif kind == 'prioritized':
        o = PrioritizedReplayMemory(info, ai, 3, cap, .6, [.4, LinearParameter(.4, 1., 20)][r.randint(2)], .01)
    else:
        o = SumTree(info, ai, cap)
    if kind in ('uniform', 'sequence'):
        add = Op(lambda r: (ds(r),), lambda o, d: o.add(d, n, .9) if kind == 'uniform' else o.add(d))
        return o, dict(_first=add, _second=add, add=add, add2=add, get=read(lambda o: o.get(3) if o.size > 0 else None), state=read(lambda o: (o.size, o.initialized)),
                       reset=Op(lambda r: (r.rand() < .2,), lambda o, b: o.reset() if b else None))
    if kind == 'prioritized':
        add = Op(lambda r: (lambda d: (d, list(np.exp(r.randn(len(d)))), ))(ds(r)), lambda o, d, p: o.add(d, p, n, .9))

        def get(o):
            if not o.initialized:
                return None
            out = o.get(2)
            return [x for x in out] + [o.max_priority]

        def upd(o, e):
            if not o.initialized:
                return None
            out = o.get(2)
            o.update(np.asarray(e), out[-2])
            return o.max_priority
        return o, dict(_first=add, _second=add, add=add, add2=add, get=read(get), update=Op(lambda r: (np.exp(r.randn(2)),), upd), state=read(lambda o: o.initialized))
    add = Op(lambda r: (lambda d: (d, list(np.exp(r.randn(len(d)))), ))(ds(r)), lambda o, d, p: o.add(d, p, n, .9))
    return o, dict(_first=add, _second=add, add=add, add2=add, get=Op(lambda r: (float(r.rand()),), lambda o, s: o.get(s * o.total_p) if o.size else None),
                   state=read(lambda o: (o.size, o.max_p if o.size else 0, o.total_p)))


def k_dataset(r):
    be = ['numpy', 'torch', 'list'][r.randint(3)]
    stateful = bool(r.randint(2))
    mk = c05.Maker(np.random.RandomState(r.randint(10 ** 6)), be, [(2,), (2, 2)][r.randint(2)], (1,), 'f32', ['f32', 'i'][r.randint(2)], stateful)
    ds = Dataset(mk.info(), n_steps=200)
    g = c07.Gen(np.random.RandomState(r.randint(10 ** 6)), dict(a='num', b=(2,), c=dict(d='num')), be, 0.)
    wi = bool(r.randint(2))
    ap = Op(lambda r: (mk.step(), g.one() if wi else {}), lambda o, s, i: o.append(s, i))

    def view(o, k, cp):
        return o.get_view(slice(0, k), copy=cp) if be != 'list' or not cp else o.get_view(slice(0, k))

    def stats(o):
        if len(o) == 0:
            return None
        return o.discounted_return, o.undiscounted_return, o.episodes_length, o.n_episodes, o.get_init_states(), o.compute_metrics(.9) if bool(np.any([bool(v) for v in o.last])) else 0
    ops = dict(_first=ap, ap=ap, ap2=ap, ap3=ap, all=read(lambda o: o), view=Op(lambda r: (int(r.randint(1, 4)), bool(r.randint(2))), lambda o, k, c: view(o, k, c) if len(o) else None),
               stats=read(stats), theta=Op(lambda r: (r.randn(2),), lambda o, t: o.append_theta(t)), clear=Op(lambda r: (r.rand() < .2,), lambda o, b: o.clear() if b else None),
               parse=read(lambda o: (o.parse(), o.parse(to='numpy'), o.parse_policy_state() if stateful else 0) if len(o) else None),
               add=read(lambda o: o + o if 0 < len(o) < 30 else None), random=read(lambda o: o.select_random_samples(2) if len(o) > 2 else None),
               backend=read(lambda o: (o.array_backend.get_backend_name(), bool(o.is_stateful))))
    return ds, ops


def k_vector_dataset(r):
    be = ['numpy', 'torch'][r.randint(2)]
    ne = int(r.randint(2, 5))
    info = DatasetInfo(be, None, 5, .9, (2,), data.dt(be, 'f'), (1,), data.dt(be, 'f'), [None, (2,)][r.randint(2)], ne)
    ds = VectorizedDataset(info, n_steps=60)
    t = (lambda x, d=torch.float32: torch.as_tensor(x, dtype=d)) if be == 'torch' else (lambda x, d=None: np.asarray(x))
    u = [0]
    wi = bool(r.randint(2))

    def step(r):
        u[0] += 1
        b = torch.bool if be == 'torch' else None
        ab = r.rand(ne) < .2
        s = [t(r.randn(ne, 2) + u[0]), t(r.randn(ne, 1)), t(r.randn(ne)), t(r.randn(ne, 2)), t(ab, b), t(ab | (r.rand(ne) < .2), b)]
        if info.policy_state_shape:
            s += [t(r.randn(ne, 2)), t(r.randn(ne, 2))]
        return s, (dict(k=t(np.arange(ne) + u[0])) if wi else {}), t(r.rand(ne) < .8, b)
    ap = Op(step, lambda o, s, i, k: o.append_vectorized(s, i, k))
    return ds, dict(_first=ap, ap=ap, ap2=ap, ap3=ap, mask=read(lambda o: o.mask), len=read(len), fields=read(lambda o: (o.state, o.action, o.reward, o.next_state, o.absorbing, o.last)),
                    flat=read(lambda o: o.flatten()), theta=Op(lambda r: (t(r.randn(ne, 2)), t(r.rand(ne) < .5, torch.bool if be == 'torch' else None)), lambda o, x, k: o.append_theta_vectorized(x, k)),
                    clear=Op(lambda r: (r.rand() < .2,), lambda o, b: o.clear() if b else None))


def k_extra_info(r):
    be = ['numpy', 'torch'][r.randint(2)]
    ne = int(r.randint(1, 4))
    g = c07.Gen(np.random.RandomState(r.randint(10 ** 6)), c07.structure(r), be, 0.)
    o = ExtraInfo(ne, be)

    def other(o, b):
        o.parse(to=b)
        out = {k: o[k] for k in o.keys()}
        o.parse()
        return out

    def view(o, k):
        o.parse()
        v = o.get_view(slice(0, k))
        return {k: v[k] for k in v.keys()}
    ap = Op(lambda r: (g.one(None if ne == 1 else ne),), lambda o, i: o.append(i))
    return o, dict(_first=ap, ap=ap, ap2=ap, all=read(lambda o: o), other=Op(lambda r: (['numpy', 'torch'][r.randint(2)],), other),
                   view=Op(lambda r: (int(r.randint(1, 3)),), view),
                   clear=Op(lambda r: (r.rand() < .2,), lambda o, b: o.clear() if b else None), n=read(lambda o: o.n_envs))


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('k_')}
TYPES = ('Box Discrete MDPInfo AgentInfo DatasetInfo Parameter LinearParameter DecayParameter VarianceIncreasingParameter VarianceDecreasingParameter '
         'WindowedVarianceIncreasingParameter RunningStandardization RunningExpWeightedAverage RunningAveragedWindow StandardizationPreprocessor '
         'MinMaxPreprocessor SGDOptimizer AdamOptimizer AdaptiveOptimizer Table ReplacingTrace AccumulatingTrace EnsembleTable Regressor '
         'DeterministicPolicy GaussianPolicy DiagonalGaussianPolicy StateStdGaussianPolicy StateLogStdGaussianPolicy ClippedGaussianPolicy '
         'OrnsteinUhlenbeckPolicy VectorPolicy GaussianTorchPolicy BoltzmannTorchPolicy SACPolicy RecurrentGaussianTorchPolicy EpsGreedy Boltzmann '
         'Mellowmax GaussianDistribution GaussianDiagonalDistribution GaussianCholeskyDistribution DiagonalGaussianTorchDistribution '
         'CholeskyGaussianTorchDistribution ReplayMemory SequenceReplayMemory PrioritizedReplayMemory SumTree Dataset VectorizedDataset ExtraInfo').split()
NEED = dict(component_saves=200, component_attributes=3000, saves=1500, loads=1500, twin_operations=15000, bystander_operations=15000, resaves=700, second_generation=150, fresh_saves=100,
            new_process_operations=300, light_saves=100, **{'k_' + k: 15 for k in KINDS},
            **{'t_' + k: 1 for k in TYPES})
HEAVY = ('memory',)      # contents are part of the full save only


def build(kind, seed):
    agents.seed_all(seed % 100000)
    return KINDS[kind](np.random.RandomState(seed))


def run(op, o, args, state):
    """Result of one operation under the given random state, or the exception it raises."""
    set_rng(state)
    try:
        out = plain(op.call(o, *args))
    except (NotImplementedError, AttributeError, ValueError, TypeError, KeyError, IndexError, AssertionError, RuntimeError) as e:
        out = ('raises', type(e).__name__, str(e)[:80])
    return out, rng_state()


def history(r, ops, n):
    """A random sequence of operation names; operations whose name starts with _ come first."""
    first = [k for k in sorted(ops) if k.startswith('_')]
    rest = [k for k in sorted(ops) if not k.startswith('_')]
    return first + [rest[r.randint(len(rest))] for _ in range(n)]


def twins(m, rng, kind, n):
    seed = int(rng.randint(10 ** 9))
    o, ops = build(kind, seed)
    b, bops = build(kind, seed)
    ar = np.random.RandomState(seed + 1)
    d = tempfile.mkdtemp(prefix='c08-')
    try:
        names = history(rng, ops, n)
        n_first = sum(k.startswith('_') for k in ops)
        saves = set(int(v) for v in rng.randint(0, len(names), 4))
        if rng.rand() < .3 and kind not in ('sklearn',):
            saves.add(0)
        loaded, path, light = [], os.path.join(d, 'x.msh'), kind not in HEAVY and kind != 'td_policy' and rng.rand() < .3
        errors = 0
        for i, name in enumerate(names):
            if i in saves:
                f = path if rng.rand() < .6 else os.path.join(d, f'sub{i}', *['n'] * int(rng.randint(3)), 'y')
                if f == path and os.path.exists(path):
                    m.event('resaves')
                before = rng_state()
                src = o
                if loaded and rng.rand() < .3:
                    src = loaded[rng.randint(len(loaded))]
                    m.event('second_generation')
                src.save(f, full_save=not light)
                m.eq(digest(before), digest(rng_state()), f'{kind}/save-consumes-randomness', '')
                m.event('saves')
                if light:
                    m.event('light_saves')
                if i == 0:
                    m.event('fresh_saves')
                t = type(o).load(f) if rng.rand() < .5 else Serializable.load(f)
                m.eq(type(t).__name__, type(o).__name__, f'{kind}/type', '')
                loaded.append(t)
                m.event('loads')
            op = ops[name]
            args = op.args(ar)
            st = rng_state()
            want, after = run(op, b, copy.deepcopy(args), st)
            got, _ = run(op, o, copy.deepcopy(args), st)
            e = agree(want, got)
            m.ok(e is None, f'{kind}/saving-disturbs/{name}', str(e))
            m.event('bystander_operations')
            for t in loaded:
                got, a2 = run(op, t, copy.deepcopy(args), st)
                e = agree(want, got)
                m.ok(e is None, f'{kind}/{name}', f'{type(o).__name__}: {e}')
                m.event('twin_operations')
                m.eq(digest(after), digest(a2), f'{kind}/{name}/randomness', '')
            if isinstance(want, tuple) and want and want[0] == 'raises':
                m.event('raised')
                m.seen('raised', kind, name, want[1], want[2][:20])
                errors += 1
                if os.environ.get('C08_SHOW'):
                    open('/tmp/raised','a').write(repr((kind, type(o).__name__, name, want[1:])) + '\n')
            set_rng(after)
            m.seen(kind, type(o).__name__, name, i in saves, len(loaded))
        m.event('k_' + kind)
        m.event('t_' + type(o).__name__)
    finally:
        shutil.rmtree(d, ignore_errors=True)


CODE = r'''
import sys, pickle
sys.path.insert(0, %r)
from checks import c08
c08.child(%r)
'''


def child(d):
    out = []
    for kind, seed, f, names, aseed in pickle.load(open(os.path.join(d, 'spec'), 'rb')):
        _, ops = build(kind, seed)
        t = Serializable.load(f)
        out.append(replay(t, ops, names, aseed))
    pickle.dump(out, open(os.path.join(d, 'res'), 'wb'))


def replay(o, ops, names, aseed):
    ar = np.random.RandomState(aseed)
    agents.seed_all(aseed % 10 ** 6)
    return [run(ops[k], o, ops[k].args(ar), rng_state())[0] for k in names]


class Part(Serializable):
    """A user component: attributes saved with every method, some only in full saves, nested parts and lists of parts."""
    METHODS = ['primitive', 'numpy', 'torch', 'pickle', 'json', 'mushroom', 'none', 'list']

    def __init__(self, rng, depth):
        self.attrs = {}
        save = {}
        for i in range(int(rng.randint(2, 7))):
            meth = self.METHODS[rng.randint(len(self.METHODS))]
            if depth == 0 and meth in ('mushroom', 'list'):
                meth = 'pickle'
            mark = '!' if rng.rand() < .35 and meth != 'none' else ''
            self.attrs[f'a{i}'] = (meth, bool(mark))
            save[f'a{i}'] = ('mushroom' if meth == 'list' else meth) + mark
        self.depth, self.unsaved, self.posted = depth, 5, 0
        self._add_save_attr(attrs='primitive', depth='primitive')
        self._add_save_attr(**save)
        self.refresh(rng)

    def refresh(self, rng):
        for n, (meth, _) in self.attrs.items():
            v = None
            if rng.rand() > .15:
                v = dict(primitive=lambda: [3, .5, 'x', (1, 2), {'k': [1]}, True, 0, ''][rng.randint(8)], numpy=lambda: np.array(rng.randn(*rng.randint(0, 4, rng.randint(0, 3)))),
                         torch=lambda: torch.as_tensor(rng.randn(3)), pickle=lambda: {'x': rng.randn(2), 'y': [None, 1]}, json=lambda: {'b': [1, 'z'], 'a': {'c': None}},
                         mushroom=lambda: Part(rng, self.depth - 1), none=lambda: object(),
                         list=lambda: [Part(rng, self.depth - 1) for _ in range(rng.choice([0, 1, 2, 12]))])[meth]()
            setattr(self, n, v)

    def _post_load(self):
        self.posted = getattr(self, 'posted', 0) + 1


def identical(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, np.ndarray):
        return x.dtype == y.dtype and x.shape == y.shape and bool(np.all(x == y))
    if torch.is_tensor(x):
        return x.dtype == y.dtype and x.shape == y.shape and bool((x == y).all())
    if isinstance(x, dict):
        return x.keys() == y.keys() and all(identical(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(identical(a, b) for a, b in zip(x, y))
    return x == y


def same_part(m, a, b, full, where):
    m.eq(type(b).__name__, 'Part', 'component/type', where)
    m.eq((a.attrs, a.depth), (b.attrs, b.depth), 'component/primitive', where)
    m.eq(b.posted, 1, 'component/post-load', f'{where}: calls of the hook after loading')
    m.ok(not hasattr(b, 'unsaved'), 'component/unsaved', where)
    for n, (meth, optional) in a.attrs.items():
        x, y = getattr(a, n), getattr(b, n)
        w = f'{where}.{n} ({meth}{"!" if optional else ""}, full save {full})'
        m.event('component_attributes')
        if x is None or meth == 'none' or optional and not full:
            m.ok(y is None, 'component/absent', f'{w}: expected None')
        elif meth == 'mushroom':
            same_part(m, x, y, full, w)
        elif meth == 'list':
            m.ok(isinstance(y, list) and len(x) == len(y), 'component/list', w)
            for i, (p, q) in enumerate(zip(x, y)):
                same_part(m, p, q, full, f'{w}[{i}]')
        else:
            m.ok(identical(x, y), 'component/value', f'{w}: {x!r} became {y!r}')


def components(m, rng, n):
    d = tempfile.mkdtemp(prefix='c08-')
    try:
        o = Part(rng, 2)
        others = {}
        for i in range(n):
            f = os.path.join(d, *['n'] * int(rng.randint(4)), f'p{rng.randint(2)}')
            full = bool(rng.rand() < .5)
            o.save(f, **(dict(full_save=full) if full or rng.rand() < .5 else {}))
            others[f] = (copy.deepcopy(o), full)
            same_part(m, o, Part.load(f) if rng.rand() < .5 else Serializable.load(f), full, 'root')
            g = sorted(others)[rng.randint(len(others))]        # earlier files stay as they were
            same_part(m, others[g][0], Serializable.load(g), others[g][1], 'root')
            m.event('component_saves')
            o.refresh(rng)
        m.raises(ValueError, lambda: Serializable.load(os.path.join(d, 'missing')), 'component/missing-file')
        m.seen('components', n, len(others))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def new_process(m, rng, n):
    d = tempfile.mkdtemp(prefix='c08-')
    try:
        spec, want = [], []
        for i in range(n):
            kind = sorted(KINDS)[rng.randint(len(KINDS))]
            seed, aseed = int(rng.randint(10 ** 9)), int(rng.randint(10 ** 6))
            o, ops = build(kind, seed)
            ar = np.random.RandomState(seed + 1)
            for k in history(rng, ops, 6):
                run(ops[k], o, ops[k].args(ar), rng_state())
            f = os.path.join(d, str(i))
            o.save(f, full_save=True)
            names = [k for k in history(rng, ops, 8) if not k.startswith('_')]
            _, fresh = build(kind, seed)        # operations with the argument streams at their start, as in the other process
            spec.append((kind, seed, f, names, aseed))
            want.append(replay(o, fresh, names, aseed))
        pickle.dump(spec, open(os.path.join(d, 'spec'), 'wb'))
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = subprocess.run([sys.executable, '-c', CODE % (root, d)], capture_output=True, text=True, timeout=180)
        m.ok(p.returncode == 0, 'new-process/fails', p.stderr[-300:])
        if p.returncode == 0:
            res = pickle.load(open(os.path.join(d, 'res'), 'rb'))
            for (kind, _, _, names, _), a, b in zip(spec, want, res):
                for k, x, y in zip(names, a, b):
                    e = agree(x, y)
                    m.ok(e is None, f'{kind}/new-process/{k}', str(e))
                    m.event('new_process_operations')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cases(tier, rng):
    q = 1 if tier == 'quick' else 8
    for _ in range(45 * q):
        for k in KINDS:
            for _ in range(2 if k in ('policy', 'parameter') else 1):
                yield 'twins', dict(kind=k, n=int(rng.choice([8, 16, 30])))
    for _ in range(60 * q):
        yield 'components', dict(n=6)
    for _ in range(6 * q):
        yield 'new_process', dict(n=12)
