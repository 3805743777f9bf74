"""C33: learning and evaluation never corrupt data they do not own."""
import functools
import inspect

import numpy as np
import torch

from mushroom_rl.core import Agent, Core, Dataset
from mushroom_rl.core.extra_info import ExtraInfo
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.approximators import Regressor
from mushroom_rl.distributions.distribution import Distribution
from mushroom_rl.environments import CarOnHill, CartPole, FiniteMDP, GridWorld, InvertedPendulum, LQR, PuddleWorld, Segway, ShipSteering
from mushroom_rl.features import Features
from mushroom_rl.features.basis import GaussianRBF, PolynomialBasis
from mushroom_rl.features.tiles import Tiles
from mushroom_rl.policy.policy import Policy
from mushroom_rl.rl_utils.optimizers import Optimizer
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.preprocessors import Preprocessor
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory, ReplayMemory
from mushroom_rl.rl_utils.value_functions import compute_advantage, compute_advantage_montecarlo, compute_gae
from mushroom_rl.solvers.dynamic_programming import policy_iteration, value_iteration
from mushroom_rl.solvers import lqr as lqr_solver
from mushroom_rl.utils.minibatches import minibatch_generator
from mushroom_rl.utils.numerical_gradient import numerical_diff_function
from checks import c08
from checks.c09 import arrays, rng_state, same, set_rng, view
from vlib import agents

PROPERTY = 'C33'
RULE = ('an argument-integrity monitor is wrapped around the public methods of agents, policies, approximators, distributions, memories, '
        'optimizers and preprocessors while the real Core trains and evaluates every algorithm: a fingerprint of every array, dataset, list '
        'and option dictionary passed in is compared before and after the call, and again at the end of the training for the arrays, weight '
        'vectors and option dictionaries that were handed over. Component histories, features, solvers, estimators and environments are '
        'driven the same way with read-only arrays. Evaluation: a run that evaluates between two learning phases is compared with one '
        'that does not')
ASSUMPTIONS = ['running observation statistics follow every state seen, and exploration schedules advance with every action drawn, also in evaluation (by design)']
CASE_LIMIT = 200


# ---------------------------------------------------------------- fingerprints
def fp(x, depth=0):
    """Comparable value of a caller-owned argument; None when it is not data (objects that are meant to change)."""
    if isinstance(x, torch.Tensor):
        return ('t', str(x.dtype), tuple(x.shape), x.detach().cpu().numpy().tobytes()) if not isinstance(x, torch.nn.Parameter) else 'param'
    if isinstance(x, np.ndarray):
        return ('n', str(x.dtype), x.shape, x.tobytes()) if x.dtype != object else ('no', len(x), tuple(fp(v, depth + 1) for v in x.ravel()))
    if isinstance(x, Dataset):
        out = [len(x)] + [tuple(fp(v) for v in getattr(x, f)) for f in ('state', 'action', 'reward', 'next_state', 'absorbing', 'last')]
        if x.is_stateful:
            out += [tuple(fp(v) for v in x.policy_state), tuple(fp(v) for v in x.policy_next_state)]
        out += [tuple(fp(v) for v in x.theta_list)]
        return ('ds',) + tuple(out)
    if isinstance(x, ExtraInfo):
        return None
    if isinstance(x, dict):
        return ('d',) + tuple((str(k), fp(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return ('l', len(x)) + tuple(fp(v, depth + 1) for v in x)
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes, np.generic)):
        return ('v', repr(x))
    if isinstance(x, type) or inspect.isfunction(x):
        return ('c', id(x))
    return ('o', id(x))     # an object: its identity inside a container is data, its inside is not


def where(a, b, path=''):
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] and a and a[0] in ('d', 'l', 'ds'):
        if len(a) != len(b):
            return f'{path}: {len(a)} entries became {len(b)}: {[k[0] for k in b[1:]] if a[0] == "d" else ""}'
        for i, (x, y) in enumerate(zip(a[1:], b[1:])):
            if x != y:
                return where(x[1], y[1], f'{path}/{x[0]}') if a[0] == 'd' and x[0] == y[0] else where(x, y, f'{path}/{i}')
    return f'{path}: {str(a)[:60]} became {str(b)[:60]}'


class Guard:
    """Wraps classes; checks the arguments of every outermost or nested call."""
    def __init__(self, m, tag):
        self.m, self.tag, self.undo, self.held, self.depth = m, tag, [], [], 0

    def wrap(self, cls, name, keep=False):
        f = cls.__dict__.get(name)
        if not inspect.isfunction(f):
            return
        guard = self

        @functools.wraps(f)
        def g(obj, *a, **k):
            before = [fp(x) for x in a] + [fp(v) for v in k.values()]
            out = f(obj, *a, **k)
            after = [fp(x) for x in a] + [fp(v) for v in k.values()]
            guard.m.event('guarded_calls')
            if before != after:
                bad = [where(x, y, str(i)) for i, (x, y) in enumerate(zip(before, after)) if x != y]
                guard.m.ok(False, f'argument-changed/{cls.__name__}.{name}', f'{guard.tag}: {bad[:2]}')
            else:
                guard.m.ok(True, f'argument-changed/{cls.__name__}.{name}', '')
            if keep:
                guard.hold(f'{cls.__name__}.{name}', a, k)
            return out
        setattr(cls, name, g)
        self.undo.append((cls, name, f))

    def hold(self, what, a, k):
        for n, x in list(enumerate(a)) + list(k.items()):
            if isinstance(x, (np.ndarray, torch.Tensor, dict, list)) and len(self.held) < 400:
                # views that the library itself made of its own storage are not the caller's
                self.held.append((f'{what}({n})', x, fp(x)))

    def final(self):
        for what, x, f in self.held:
            self.m.event('held_arguments')
            g = fp(x)
            self.m.ok(f == g, f'argument-changed-later/{what}', f'{self.tag}: {where(f, g)}')

    def close(self):
        for cls, name, f in reversed(self.undo):
            setattr(cls, name, f)
        self.undo = []


def subclasses(c):
    out = [c]
    for s in c.__subclasses__():
        out += subclasses(s)
    return out


METHODS = {Policy: ('draw_action', '__call__', 'diff_log', 'diff', 'draw_action_t', 'log_prob_t', 'compute_action_and_log_prob', 'distribution_t'),
           Distribution: ('log_pdf', '__call__', 'mle', 'con_wmle', 'diff_log', 'diff', 'set_parameters'),
           Optimizer: ('__call__',), Preprocessor: ('__call__', 'update'), Parameter: ('__call__', 'update'),
           ReplayMemory: ('add',), PrioritizedReplayMemory: ('add', 'update'), Agent: ('fit', 'draw_action', 'episode_start')}


def install(g):
    for base, names in METHODS.items():
        for c in subclasses(base):
            if not c.__module__.startswith('mushroom_rl'):
                continue
            for n in names:
                g.wrap(c, n)
    for c in subclasses(Serializable):
        if c.__module__.startswith('mushroom_rl.approximators'):
            for n in ('fit', 'predict', 'diff'):
                g.wrap(c, n)
    for c in subclasses(Agent):
        if c.__module__.startswith('mushroom_rl.algorithms'):
            g.wrap(c, '__init__')


def own(o, kind, rng):
    """Options of the caller, kept alive and fingerprinted."""
    return o


def training(m, rng, kind):
    g = Guard(m, kind)
    kept = []
    orig = {}
    # the outermost constructor call of an agent receives the caller's options: keep and verify them to the end
    for c in [c for c in subclasses(Agent) if c.__module__.startswith('mushroom_rl.algorithms') and '__init__' in c.__dict__]:
        orig[c] = c.__dict__['__init__']

        def init(self, *a, _f=orig[c], _c=c, **k):
            outer = type(self) is _c
            before = fp(list(a) + [k])
            _f(self, *a, **k)
            if outer:
                after = fp(list(a) + [k])
                m.ok(before == after, f'options-changed/{_c.__name__}', where(before, after))
                m.event('constructors')
                for x in list(a) + list(k.values()):
                    if isinstance(x, (dict, list, np.ndarray, torch.Tensor)):
                        kept.append((_c.__name__, x, fp(x)))
        c.__init__ = init
    agents.seed_all(rng.randint(2 ** 31))
    try:
        o = {}
        if kind in agents.TD + agents.DQNS and rng.rand() < .5:
            o['pol'] = 'boltzmann'
        if kind in agents.DEEP_AC + agents.DQNS:
            o['opt'] = [agents.adam(), agents.sgd()][rng.randint(2)]
        if kind in ('a2c', 'ppo', 'trpo'):
            o['cfp'] = dict(n_epochs=2)
        if kind in agents.DQNS and rng.rand() < .5:
            o['extra'] = dict(fit_params=dict(n_epochs=2) if kind not in ('categorical', 'quantile', 'rainbow') else {})
            if not o['extra']['fit_params']:
                o.pop('extra')
        opts = [(k, v, fp(v)) for k, v in o.items()]
        ag, env, lk = agents.build(kind, o)
        install(g)
        core = Core(ag, env)
        half = {k: (v // 2 if k in ('n_steps', 'n_episodes') and kind != 'boosted_fqi' else v) for k, v in lk.items()}
        core.learn(**half, quiet=True)
        core.evaluate(n_episodes=2, quiet=True)
        if kind != 'boosted_fqi':
            core.learn(**half, quiet=True)
        # evaluation from the caller's initial states
        st = np.array([[int(rng.randint(4))] for _ in range(2)]) if kind in agents.TD else rng.uniform(-1, 1, (2, 2))
        f0 = fp(st)
        ds = core.evaluate(initial_states=st, quiet=True)
        m.ok(fp(st) == f0, 'initial-states-changed', kind)
        # fitting a dataset of the caller: contents stay, also after later training
        for name, v, f in opts + [(c, v, f) for c, v, f in kept]:
            m.event('options')
            b = fp(v)
            m.ok(b == f, f'options-changed-later/{kind}/{name}', where(f, b))
        d0 = fp(ds)
        f1 = ds.discounted_return, ds.undiscounted_return, ds.episodes_length, ds.compute_metrics(.9), ds.parse(), ds.parse(to='torch'), ds.get_init_states()
        for b in (ds.select_first_episodes(1), ds.get_view(slice(0, 2), copy=True)):
            b.clear()
        m.ok(fp(ds) == d0, 'statistics-change-dataset', kind)
        m.event('dataset_reads')
        if kind not in ('boosted_fqi', 'lspi') and kind not in agents.TD + agents.CLASSIC_AC:
            lay = Dataset.generate(env.info, ag.info, n_episodes=10)
            del lay
        g.final()
    finally:
        g.close()
        for c, f in orig.items():
            c.__init__ = f
    m.event('k_' + kind)
    m.seen(kind, str(sorted(o)))


def evaluation(m, rng, kind):
    """learn, evaluate, learn == learn, learn (random state put back after the evaluation)."""
    seed = int(rng.randint(2 ** 31))
    n_eval = int(rng.randint(1, 4))
    by_steps = bool(rng.randint(2))
    out = []
    for ev in (False, True):
        agents.seed_all(seed)
        o = dict(pol='boltzmann') if kind in agents.TD + agents.DQNS + agents.BATCH else {}
        ag, env, lk = agents.build(kind, o)
        core = Core(ag, env)
        half = {k: (v // 2 if k in ('n_steps', 'n_episodes') and kind != 'boosted_fqi' else v) for k, v in lk.items()}
        core.learn(**half, quiet=True)
        if ev:
            d = getattr(ag, 'distribution', None)
            before = view(ag, env) if d is None else arrays(d.get_parameters())
            before = [np.array(x) for x in before]
            st = rng_state()
            core.evaluate(**(dict(n_steps=7 * n_eval) if by_steps else dict(n_episodes=n_eval)), quiet=True)
            set_rng(st)
            after = view(ag, env) if d is None else arrays(d.get_parameters())
            same(m, before, after, f'evaluation-changes-agent/{kind}', 'parameters around an evaluation')
            m.event('evaluations')
        if kind != 'boosted_fqi':
            core.learn(**half, quiet=True)
        st = rng_state()
        d = getattr(ag, 'distribution', None)
        out.append(([np.array(x) for x in (view(ag, env) if d is None else arrays(d.get_parameters()))], st[0][1].tolist() if False else None))
    same(m, out[0][0], out[1][0], f'evaluation-changes-learning/{kind}', 'parameters after learning on')
    m.event('continuations')
    m.event('e_' + kind)


def freeze(x):
    """Arrays of the caller, read-only where the array type allows."""
    if isinstance(x, np.ndarray):
        x = x.copy()
        x.flags.writeable = False
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(freeze(v) for v in x)
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    return x


def components(m, rng, kind, n):
    seed = int(rng.randint(10 ** 9))
    o, ops = c08.build(kind, seed)
    ar = np.random.RandomState(seed + 1)
    held = []
    ro = bool(rng.randint(2)) and kind not in ('dataset', 'vector_dataset', 'extra_info', 'memory')
    for name in c08.history(rng, ops, n):
        op = ops[name]
        args = op.args(ar)
        if ro:
            args = tuple(freeze(a) for a in args)
        before = [fp(a) for a in args]
        st = rng_state()
        try:
            op.call(o, *args)
            m.event('component_calls')
        except (NotImplementedError, AttributeError):
            pass
        except ValueError as e:
            m.ok('read-only' not in str(e), f'writes-to-argument/{kind}/{name}', f'{type(o).__name__}: {e}')
        except (RuntimeError, TypeError, KeyError, IndexError, AssertionError):
            pass
        after = [fp(a) for a in args]
        for i, (x, y) in enumerate(zip(before, after)):
            m.ok(x == y, f'argument-changed/{kind}/{name}', f'{type(o).__name__}: {where(x, y)}')
        held.append((name, args, before))
        m.seen(kind, type(o).__name__, name)
    for name, args, before in held:
        for x, y in zip(before, [fp(a) for a in args]):
            m.event('held_arguments')
            m.ok(x == y, f'argument-changed-later/{kind}/{name}', f'{type(o).__name__}: {where(x, y)}')


def call(m, name, f, *args):
    b = [fp(a) for a in args]
    out = f(*args)
    a = [fp(x) for x in args]
    m.ok(b == a, f'argument-changed/{name}', '')
    m.event('function_calls')
    return out


def functions(m, rng):
    n = int(rng.randint(2, 9))
    t = lambda x: torch.tensor(x, dtype=torch.float32)
    V = Regressor(c08.TorchApproximator, network=c08.MLP, input_shape=(2,), output_shape=(1,), n_features=3)
    s, ss, r = t(rng.randn(n, 2)), t(rng.randn(n, 2)), t(rng.randn(n))
    ab = torch.tensor(rng.rand(n) < .3)
    la = ab | torch.tensor(rng.rand(n) < .3)
    la[-1] = True
    call(m, 'compute_gae', compute_gae, V, s, ss, r, ab, la, .9, .8)
    call(m, 'compute_advantage', compute_advantage, V, s, ss, r, ab, .9)
    call(m, 'compute_advantage_montecarlo', compute_advantage_montecarlo, V, s, ss, r, ab, .9)
    ns, na = int(rng.randint(2, 6)), int(rng.randint(2, 4))
    p = rng.rand(ns, na, ns)
    p /= p.sum(-1, keepdims=True)
    rew = rng.randn(ns, na, ns)
    for a in (p, rew):
        a.flags.writeable = False
    call(m, 'value_iteration', value_iteration, p, rew, .9, 1e-3)
    call(m, 'policy_iteration', policy_iteration, p, rew, .9)
    mu = np.ones(ns) / ns
    mdp = FiniteMDP(p, rew, mu, .9, 20)
    f0 = fp([p, rew, mu])
    mdp.reset()
    for _ in range(10):
        mdp.step(np.array([rng.randint(na)]))
    m.ok(fp([p, rew, mu]) == f0, 'argument-changed/FiniteMDP', '')
    A, B, Q, R = rng.randn(2, 2) * .3, rng.randn(2, 2), np.eye(2), np.eye(2)
    env = LQR(A, B, Q, R, max_pos=5., max_action=5.)
    f0 = fp([A, B, Q, R])
    K = lqr_solver.compute_lqr_feedback_gain(env)
    K0 = .3 * rng.randn(2, 2)
    st, ac, Sg = rng.randn(2), rng.randn(2), np.eye(2) * .3
    for nm, f, a in (('P', lqr_solver.compute_lqr_P, (env, K)), ('V', lqr_solver.compute_lqr_V, (st, env, K)), ('Q', lqr_solver.compute_lqr_Q, (st, ac, env, K0)),
                     ('Vg', lqr_solver.compute_lqr_V_gaussian_policy, (st, env, K, Sg)), ('Qg', lqr_solver.compute_lqr_Q_gaussian_policy, (st, ac, env, K, Sg)),
                     ('dV', lqr_solver.compute_lqr_V_gaussian_policy_gradient_K, (st, env, K, Sg)),
                     ('dQ', lqr_solver.compute_lqr_Q_gaussian_policy_gradient_K, (st, ac, env, K, Sg))):
        call(m, 'lqr-' + nm, f, *a)
    m.ok(fp([A, B, Q, R]) == f0, 'argument-changed/LQR', '')
    x = rng.randn(7, 2)
    y = rng.randn(7)
    call(m, 'minibatch', lambda x, y: [None for _ in minibatch_generator(3, x, y)], x, y)
    call(m, 'numerical-gradient', lambda w: numerical_diff_function(lambda v: np.sum(v ** 2), w), rng.randn(3))
    phis = [Features(basis_list=GaussianRBF.generate([2, 2], [-1., -1.], [1., 1.])), Features(basis_list=PolynomialBasis.generate(2, 2)),
            Features(tilings=Tiles.generate(2, [3, 3], [-2., -2.], [2., 2.]))]
    for i, ph in enumerate(phis):
        call(m, f'features-{i}', ph, freeze(rng.randn(2)))
    m.seen(n, ns, na)


def environments(m, rng, kind, n):
    env = dict(car=CarOnHill, cartpole=CartPole, pendulum=lambda: InvertedPendulum(), puddle=PuddleWorld, segway=lambda: Segway(random_start=True),
               ship=ShipSteering, lqr=lambda: LQR(np.eye(2) * .9, np.eye(2), np.eye(2), np.eye(2), max_pos=5., max_action=2., random_init=True),
               grid=lambda: GridWorld(3, 3, (2, 2)), finite=lambda: agents.finite())[kind]()
    asp = env.info.action_space
    agents.seed_all(rng.randint(2 ** 31))
    old = []
    for e in range(n):
        s, _ = env.reset()
        if rng.rand() < .5 and kind not in ('grid',):
            s0 = freeze(np.array(s, dtype=float if kind != 'finite' else int))
            f = fp(s0)
            try:
                s, _ = env.reset(s0)
            except ValueError as er:
                m.ok('read-only' not in str(er), f'writes-to-argument/{kind}/reset', str(er))
            m.ok(fp(s0) == f, f'argument-changed/{kind}/reset', '')
            old.append((s0, f))
            m.event('resets')
        old.append((s, fp(s)))
        for _ in range(15):
            a = np.array([rng.randint(asp.n)]) if hasattr(asp, 'n') else rng.uniform(-2, 2, asp.shape) * np.minimum(np.abs(asp.high), 10.)
            a = freeze(a)
            f = fp(a)
            try:
                s, r, ab, i = env.step(a)
            except ValueError as er:
                m.ok('read-only' not in str(er), f'writes-to-argument/{kind}/step', str(er))
                raise
            m.ok(fp(a) == f, f'argument-changed/{kind}/step', '')
            old.append((s, fp(s)))
            m.event('steps')
            if ab:
                break
        for x, f in old:
            m.ok(fp(x) == f, f'returned-state-changed/{kind}', '')
            m.event('returned_states')
        old = old[-30:]


ENVS = ['car', 'cartpole', 'pendulum', 'puddle', 'segway', 'ship', 'lqr', 'grid', 'finite']
NEED = dict(guarded_calls=20000, constructors=150, options=200, held_arguments=4000, dataset_reads=80, evaluations=80, continuations=80,
            component_calls=6000, function_calls=200, resets=60, steps=1500, returned_states=2000,
            **{'k_' + k: 2 for k in agents.ALL}, **{'e_' + k: 2 for k in agents.ALL})


def cases(tier, rng):
    q = 1 if tier == 'quick' else 8
    for _ in range(4 * q):
        for k in agents.ALL:
            yield 'training', dict(kind=k)
            yield 'evaluation', dict(kind=k)
    for _ in range(40 * q):
        for k in c08.KINDS:
            yield 'components', dict(kind=k, n=int(rng.choice([10, 25])))
        yield 'functions', {}
    for _ in range(6 * q):
        for k in ENVS:
            yield 'environments', dict(kind=k, n=5)
