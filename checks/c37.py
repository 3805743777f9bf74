"""C37: wrapped gym, gymnasium, Atari and dm_control environments are faithful to the environment they wrap."""
import importlib
import os
import warnings

os.environ.setdefault('MUJOCO_GL', 'osmesa')
os.environ.setdefault('PYOPENGL_PLATFORM', 'osmesa')

import numpy as np
import gym
from gym import spaces

from mushroom_rl.core import Agent, Core
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mushroom_rl.environments.gym_env import Gym
from mushroom_rl.environments.atari import Atari
from mushroom_rl.environments.dm_control_env import DMControl
from mushroom_rl.policy import Policy
from vlib import fake_gymnasium

FAKE = fake_gymnasium.install()
Gymnasium = importlib.import_module('mushroom_rl.environments.gymnasium_env').Gymnasium
GymnasiumAtari = importlib.import_module('mushroom_rl.environments.gymnasium_atari').GymnasiumAtari
import gymnasium as gymn                                    # noqa: E402


def _minigrid_stub():
    """Stand-in of gym_minigrid.wrappers (not installed)."""
    try:
        import gym_minigrid.wrappers                        # noqa: F401
        return
    except ImportError:
        pass
    import sys
    import types

    class Img(gym.ObservationWrapper):
        def __init__(self, env):
            super().__init__(env)
            self.observation_space = env.observation_space.spaces['image']

        def observation(self, obs):
            return obs['image']

    class Rgb(gym.ObservationWrapper):
        def __init__(self, env):
            super().__init__(env)
            self.observation_space = spaces.Dict({'image': spaces.Box(low=0, high=255, shape=(14, 14, 3), dtype=np.uint8)})

        def observation(self, obs):
            return dict(image=np.kron(obs['image'], np.ones((2, 2, 1), dtype=np.uint8)))
    pkg, w = types.ModuleType('gym_minigrid'), types.ModuleType('gym_minigrid.wrappers')
    w.ImgObsWrapper, w.RGBImgPartialObsWrapper, pkg.wrappers = Img, Rgb, w
    sys.modules['gym_minigrid'], sys.modules['gym_minigrid.wrappers'] = pkg, w


_minigrid_stub()
MiniGrid = importlib.import_module('mushroom_rl.environments.minigrid_env').MiniGrid

PROPERTY = 'C37'
RULE = ('generated environments that record every call are registered with gym (and a stand-in of gymnasium, which is not installed) and driven through '
        'the wrappers, with and without user wrappers, next to an independent instance of the same environment; dm_control tasks and the classic '
        'gym tasks are compared step by step with a raw twin; Atari wrappers run on scripted games with lives and a recorded frame log')
NEED = {'gym-step': 500, 'gymnasium-step': 500, 'past-limit': 20, 'state-set': 20, 'classic-step': 200, 'dm-step': 200, 'atari-step': 300,
        'life-lost': 20, 'game-over': 5, 'frame': 500, 'wrapper': 10, 'minigrid-step': 100, 'pixel-frame': 20, 'life-gained': 5, 'stopped': 10, 'noop-range': 4}
ASSUMPTIONS = ['gymnasium is represented by a stand-in with the same interface', 'Atari and MiniGrid games are represented by scripted environments with lives, goals and frames']
CASE_LIMIT = 120
gym.logger.set_level(50)
LIVE = []
COUNT = [0]


# ---------------------------------------------------------------- generated environment
class Base:
    """Deterministic pseudo-random dynamics over a plain state; records everything it receives."""

    def build(self, seed, obs_kind, act_kind, n, p_end, dt):
        self.seed0, self.obs_kind, self.act_kind, self.n, self.p_end = seed, obs_kind, act_kind, n, p_end
        g = np.random.RandomState(seed)
        if obs_kind == 'discrete':
            self.observation_space = spaces.Discrete(n + 3)
        else:
            shape = (n,) if obs_kind == 'box' else (n, 2)
            self.observation_space = spaces.Box(low=-g.uniform(50, 90, shape).astype(np.float32), high=g.uniform(50, 90, shape).astype(np.float32), dtype=np.float32)
        self.action_space = spaces.Discrete(n + 1) if act_kind == 'discrete' else \
            spaces.Box(low=-g.uniform(1, 2, n).astype(np.float32), high=g.uniform(1, 2, n).astype(np.float32), dtype=np.float32)
        if dt:
            self.dt = dt
        self.A = g.uniform(-.5, .5, (n, n))
        self.calls = []
        self.closed = 0
        self.gen = np.random.RandomState(seed + 1)
        LIVE.append(self)

    def observe(self):
        if self.obs_kind == 'discrete':
            return int(abs(np.sum(self.state) * 1e3)) % (self.n + 3)
        x = np.asarray(self.state, dtype=np.float64)
        return x.astype(np.float32) if self.obs_kind == 'box' else np.stack([x, -x], axis=1).astype(np.float32)

    def do_reset(self):
        self.calls.append(('reset',))
        self.state = self.gen.uniform(-1, 1, self.n).astype(np.float32)
        return self.observe()

    def do_step(self, action):
        self.calls.append(('step', type(action).__name__, np.array(action, dtype=float)))
        u = np.full(self.n, float(action)) if self.act_kind == 'discrete' else np.asarray(action, dtype=float)
        s = np.asarray(self.state, dtype=np.float64)
        self.state = (np.tanh(self.A @ s + .3 * u) + .1 * s[::-1]).astype(np.float32)
        v = float(abs(np.sum(self.state) * 1e4)) % 1
        return self.observe(), float(np.sum(self.state) * 3), bool(v < self.p_end), dict(v=v, arr=self.state.copy())


class GymEnv(gym.Env, Base):
    metadata = {'render_modes': []}

    def __init__(self, **kw):
        self.build(**kw)

    def reset(self, *, seed=None, return_info=False, options=None):
        if seed is not None:
            self.seed(seed)
        o = self.do_reset()
        return (o, {}) if return_info else o

    def step(self, action):
        return self.do_step(action)

    def seed(self, seed=None):
        self.calls.append(('seed', seed))
        self.gen = np.random.RandomState(seed)
        return [seed]

    def render(self, mode='human'):
        return None

    def close(self):
        self.closed += 1


class GymnEnv(gymn.Env, Base):
    def __init__(self, **kw):
        self.build(**kw)

    def reset(self, *, seed=None, options=None):
        return self.do_reset(), dict(reset=len(self.calls))

    def step(self, action):
        o, r, a, i = self.do_step(action)
        return o, r, a, False, i

    def render(self):
        return np.zeros((4, 4, 3), dtype=np.uint8)

    def close(self):
        self.closed += 1


def wrappers_for(mod):
    class Scale(mod.Wrapper):
        def __init__(self, env, factor=2.):
            super().__init__(env)
            self.factor = factor

        def step(self, action):
            out = list(self.env.step(action))
            out[1] = out[1] * self.factor
            return tuple(out)

    class Shift(mod.Wrapper):
        def __init__(self, env, amount=1.):
            super().__init__(env)
            self.amount = amount

        def step(self, action):
            out = list(self.env.step(action))
            out[1] = out[1] + self.amount
            return tuple(out)
    return Scale, Shift


def check_space(m, got, raw, what):
    if isinstance(raw, spaces.Discrete):
        m.ok(isinstance(got, Discrete) and got.n == raw.n, 'space', f'{what} space of size {raw.n}')
    else:
        m.ok(isinstance(got, Box) and got.shape == raw.shape and np.array_equal(got.low, raw.low) and np.array_equal(got.high, raw.high),
             'space', f'{what} space bounds and shape {raw.shape}')


def generated(m, rng, lib, obs_kind, act_kind, steps):
    COUNT[0] += 1
    kw = dict(seed=int(rng.randint(1 << 30)), obs_kind=obs_kind, act_kind=act_kind, n=int(rng.randint(1, 5)), p_end=float(rng.choice([0., .05])),
              dt=float(rng.choice([0, .03])))
    limit = int(rng.choice([3, 7, 20]))
    name = f'Verif{COUNT[0]}-v0'
    mod, cls, wrap, tag = (gym, GymEnv, Gym, 'gym') if lib == 'gym' else (gymn, GymnEnv, Gymnasium, 'gymnasium')
    LIVE.clear()
    mod.register(id=name, entry_point=cls, max_episode_steps=limit) if lib != 'gym' else gym.register(id=name, entry_point=cls, max_episode_steps=limit)
    Scale, Shift = wrappers_for(mod)
    f, a = float(rng.uniform(1, 3)), float(rng.uniform(-2, 2))
    mode = int(rng.randint(5))
    wr, wa, post = None, None, lambda r: r
    if mode == 1:
        wr, post = [Scale, Shift], lambda r: r * 2. + 1.
    elif mode == 2:
        wr, post = [(Scale, dict(factor=f)), (Shift, dict(amount=a))], lambda r: r * f + a
    elif mode == 3:
        wr, wa, post = [Shift, Scale], [dict(amount=a), dict(factor=f)], lambda r: (r + a) * f
    elif mode == 4:
        wr, wa, post = [(Shift, {}), Scale], [dict(amount=a), dict()], lambda r: (r + a) * 2.
    hz = None if rng.rand() < .5 else int(rng.randint(30, 60))
    gam = float(rng.uniform(.5, 1))
    env = wrap(name, horizon=hz, gamma=gam, wrappers=wr, wrappers_args=wa, **kw)
    if mode:
        m.event('wrapper')
    inner = LIVE[0]
    m.eq(len(LIVE), 1, 'instances', 'one environment was created')
    check_space(m, env.info.observation_space, inner.observation_space, 'observation')
    check_space(m, env.info.action_space, inner.action_space, 'action')
    m.eq((env.info.horizon, env.info.gamma, env.info.dt), (limit if hz is None else hz, gam, kw['dt'] if kw['dt'] else .1), 'info', 'horizon, gamma and dt')
    m.seen(lib, obs_kind, act_kind, mode, hz is None, kw['n'])
    twin = cls(**kw)
    if lib == 'gym' and rng.rand() < .7:
        s = int(rng.randint(1000))
        env.seed(s)
        twin.seed(s)
        m.ok(('seed', s) in inner.calls, 'seed', 'seed reaches the environment')
    k = 0
    while k < steps:
        inner.calls.clear()
        given = rng.rand() < .3 and obs_kind == 'box'
        if given:
            st = rng.uniform(-1, 1, kw['n']).astype(np.float32)
            keep = st.copy()
            r = env.reset(st)
            twin.do_reset()
            twin.state = st.copy()
            want = twin.observe()
            m.event('state-set')
            m.ok(np.array_equal(st, keep), 'reset-changes-argument', 'reset changed the given state')
        else:
            r = env.reset()
            want = twin.do_reset()
        m.ok(isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict), f'{tag}-reset-result', 'reset returns observation and info')
        if lib != 'gym' and not given:
            m.eq(r[1], dict(reset=len(inner.calls)), 'reset-info', 'info of the reset')
        m.eq([c[0] for c in inner.calls if c[0] == 'reset'], ['reset'], 'reset-calls', 'one reset reaches the environment')
        m.ok(isinstance(r[0], np.ndarray) and r[0].ndim >= 1 and np.array_equal(r[0], np.atleast_1d(want)), f'{tag}-reset-observation', f'observation after reset: {r[0]} expected {want}')
        for t in range(int(rng.randint(1, 2 * limit + 5))):
            act = np.array([int(rng.randint(inner.action_space.n))]) if act_kind == 'discrete' else rng.uniform(inner.action_space.low, inner.action_space.high)
            keep = act.copy()
            inner.calls.clear()
            o, rew, ab, info = env.step(act)
            k += 1
            wo, wrw, wab, winfo = twin.do_step(act[0] if act_kind == 'discrete' else act)
            m.event(f'{tag}-step')
            m.ok(len(inner.calls) == 1 and inner.calls[0][0] == 'step', 'step-calls', f'calls that reached the environment {[c[0] for c in inner.calls]}')
            m.ok(np.array_equal(inner.calls[0][2], act[0] if act_kind == 'discrete' else act), 'action', f'action received {inner.calls[0][2]} for {act}')
            m.ok(np.array_equal(act, keep), 'step-changes-action', 'step changed the action')
            m.ok(isinstance(o, np.ndarray) and np.array_equal(o, np.atleast_1d(wo)), f'{tag}-observation', f'observation {o} expected {wo} (state set {given})')
            m.close(rew, post(wrw), f'{tag}-reward', f'reward (wrappers {mode})', rtol=1e-9)
            if t + 1 >= limit:
                m.event('past-limit')
            m.eq(bool(ab), wab, f'{tag}-absorbing', f'absorbing flag at step {t + 1} of an environment with time limit {limit}')
            m.ok(info.get('v') == winfo['v'] and np.array_equal(info.get('arr'), winfo['arr']), f'{tag}-info', 'info dictionary of the step')
            if wab:
                break
    env.stop()


class Fixed(Policy):
    def __init__(self, space, rng):
        super().__init__()
        self.space, self.rng = space, rng

    def draw_action(self, state, policy_state=None):
        if isinstance(self.space, Discrete):
            return np.array([int(self.rng.randint(self.space.n))]), None
        return self.rng.uniform(self.space.low, self.space.high), None

    def reset(self, initial_state=None):
        return None


def core_run(m, rng, lib):
    """Collected by the Core, episodes end at the horizon or at absorbing states only."""
    COUNT[0] += 1
    kw = dict(seed=int(rng.randint(1 << 30)), obs_kind='box', act_kind=str(rng.choice(['discrete', 'box'])), n=3, p_end=.03, dt=0.)
    limit, hz = 4, int(rng.randint(6, 15))
    name = f'Verif{COUNT[0]}-v0'
    mod, cls, wrap = (gym, GymEnv, Gym) if lib == 'gym' else (gymn, GymnEnv, Gymnasium)
    mod.register(id=name, entry_point=cls, max_episode_steps=limit)
    env = wrap(name, horizon=hz, **kw)
    core = Core(Agent(env.info, Fixed(env.info.action_space, rng)), env)
    ds = core.evaluate(n_episodes=8, quiet=True)
    ends = [bool(x) for x in ds.last]
    n = 0
    for i, e in enumerate(ends):
        n += 1
        if e:
            m.ok(n == hz or bool(ds.absorbing[i]), 'core-episode', f'episode of {n} steps ended without absorbing state before the horizon {hz}')
            n = 0
        m.event(f'{lib}-step')


CLASSIC = ['CartPole-v1', 'MountainCar-v0', 'Acrobot-v1', 'Pendulum-v1', 'MountainCarContinuous-v0']


def classic(m, rng, name, steps):
    env, raw = Gym(name), gym.make(name)
    lim = raw.spec.max_episode_steps
    m.eq(env.info.horizon, lim, 'info', 'default horizon')
    check_space(m, env.info.observation_space, raw.observation_space, 'observation')
    check_space(m, env.info.action_space, raw.action_space, 'action')
    s = int(rng.randint(1000))
    env.seed(s)
    raw.seed(s)
    k = 0
    while k < steps:
        given = rng.rand() < .5 and name in ('CartPole-v1', 'MountainCar-v0')
        if given:
            st = rng.uniform(-.05, .05, 4) if name == 'CartPole-v1' else np.array([rng.uniform(-.6, -.4), rng.uniform(-.05, .05)])
            o, _ = env.reset(st)
            raw.reset()
            raw.unwrapped.state = st.copy()
            m.ok(np.array_equal(o, st), 'classic-reset', 'observation of the given state')
            m.event('state-set')
        else:
            o, _ = env.reset()
            m.ok(np.array_equal(o, raw.reset()), 'classic-reset', f'{name}: observation after reset')
        for _ in range(40):
            a = np.array([int(rng.randint(raw.action_space.n))]) if isinstance(raw.action_space, spaces.Discrete) else rng.uniform(raw.action_space.low, raw.action_space.high)
            o, r, ab, i = env.step(a)
            wo, wr, wa, wi = raw.step(a[0] if isinstance(raw.action_space, spaces.Discrete) else a)
            k += 1
            m.event('classic-step')
            m.ok(np.array_equal(np.asarray(o), np.atleast_1d(wo)), 'classic-observation', f'{name}: observation {o} expected {wo} (state given: {given})')
            m.close(float(np.sum(r)), float(np.sum(wr)), 'classic-reward', f'{name}: reward')
            m.eq(bool(ab), bool(wa), 'classic-absorbing', f'{name}: absorbing flag')
            if wa:
                break
    m.seen('classic', name)
    env.stop()
    raw.close()


# ---------------------------------------------------------------- dm_control
TASKS = [('cartpole', 'balance'), ('cartpole', 'swingup'), ('pendulum', 'swingup'), ('hopper', 'hop'), ('reacher', 'easy'), ('finger', 'spin'),
         ('ball_in_cup', 'catch'), ('point_mass', 'easy'), ('cheetah', 'run'), ('acrobot', 'swingup'), ('lqr', 'lqr_2_1'), ('walker', 'walk'),
         ('fish', 'swim'), ('swimmer', 'swimmer6'), ('manipulator', 'bring_ball'), ('humanoid', 'stand')]


PIX = [('cartpole', 'balance'), ('pendulum', 'swingup'), ('point_mass', 'easy'), ('ball_in_cup', 'catch'), ('reacher', 'easy')]


def dm(m, rng, task, steps):
    from dm_control import suite
    seed = int(rng.randint(1000))
    raw = suite.load(*task, task_kwargs=dict(random=seed))
    ct = raw.control_timestep()
    nlim = int(rng.randint(4, 9))
    timed = task[0] != 'lqr' and rng.rand() < .6
    kw = dict(random=seed)
    if timed:
        kw['time_limit'] = nlim * ct
    hz = None if rng.rand() < .5 else int(rng.randint(20, 60))
    gam = float(rng.uniform(.5, 1))
    if hz is None and not timed:
        hz = 33
    env = DMControl(task[0], task[1], horizon=hz, gamma=gam, task_kwargs=kw, dt=.02)
    m.ok(abs(env.info.horizon - (nlim if hz is None else hz)) < 1e-6 * nlim, 'dm-horizon', f'{task}: horizon {env.info.horizon} expected {nlim if hz is None else hz}')
    m.eq((env.info.gamma, env.info.dt), (gam, .02), 'info', 'gamma and dt')
    sp = raw.action_spec()
    m.ok(np.array_equal(env.info.action_space.low, sp.minimum) and np.array_equal(env.info.action_space.high, sp.maximum), 'space', f'{task}: action bounds')
    size = sum(int(np.prod(v.shape)) for v in raw.observation_spec().values())
    m.eq(env.info.observation_space.shape, (size,), 'space', f'{task}: observation size')

    def flat(o):
        return np.concatenate([np.asarray(v, dtype=float).ravel() for v in o.values()])
    raw._step_limit = float('inf')
    k = 0
    while k < steps:
        o, info = env.reset()
        w = raw.reset()
        m.ok(np.array_equal(o, flat(w.observation)), 'dm-reset', f'{task}: observation after reset')
        held = [(o, o.copy())]
        for t in range(int(rng.randint(5, 15))):
            lo, hi = np.maximum(sp.minimum, -1), np.minimum(sp.maximum, 1)
            a = rng.uniform(lo, hi)
            o, r, ab, i = env.step(a)
            w = raw.step(a)
            k += 1
            m.event('dm-step')
            if timed and t + 1 >= nlim:
                m.event('past-limit')
            m.ok(np.array_equal(o, flat(w.observation)), 'dm-observation', f'{task}: observation at step {t}')
            m.close(r, w.reward, 'dm-reward', f'{task}: reward', rtol=1e-12)
            m.eq(bool(ab), bool(w.last()), 'dm-absorbing', f'{task}: absorbing flag at step {t + 1}, time limit {nlim if timed else None}')
            m.ok(all(np.array_equal(x, c) for x, c in held), 'dm-overwritten', 'an earlier observation was changed')
            held.append((o, o.copy()))
            if w.last():
                break
    m.seen('dm', task)
    env.stop()


def pixels(m, rng, task, steps):
    """Pixel observations are the rendered image, channels first; the time limit of the suite stays ignored."""
    from dm_control import suite
    seed, nlim = int(rng.randint(1000)), int(rng.randint(3, 6))
    raw = suite.load(*task, task_kwargs=dict(random=seed))
    lim = nlim * raw.control_timestep()
    w, h = int(rng.randint(8, 20)), int(rng.randint(8, 20))
    hz = None if rng.rand() < .5 else int(rng.randint(20, 60))
    env = DMControl(task[0], task[1], horizon=hz, task_kwargs=dict(random=seed, time_limit=lim), use_pixels=True, pixels_width=w, pixels_height=h)
    m.ok(abs(env.info.horizon - (nlim if hz is None else hz)) < 1e-6 * nlim, 'dm-horizon', f'{task}: horizon {env.info.horizon} expected {nlim if hz is None else hz}')
    sp = env.info.observation_space
    m.ok(sp.shape == (3, h, w) and np.all(sp.low == 0) and np.all(sp.high == 255), 'dm-pixel-space', f'observation space of {w}x{h} pixels: {sp.shape}')
    raw._step_limit = float('inf')
    asp, k = raw.action_spec(), 0
    while k < steps:
        o, _ = env.reset()
        ts = raw.reset()
        for t in range(int(rng.randint(nlim, 2 * nlim + 2))):
            want = raw.physics.render(height=h, width=w).transpose(2, 0, 1)
            m.ok(np.array_equal(o, want), 'dm-pixels', f'{task}: image at step {t}')
            m.event('pixel-frame')
            if ts.last():
                break
            a = rng.uniform(np.maximum(asp.minimum, -1), np.minimum(asp.maximum, 1))
            o, r, ab, _ = env.step(a)
            ts = raw.step(a)
            k += 1
            m.close(r, ts.reward, 'dm-reward', f'{task}: reward', rtol=1e-12)
            m.eq(bool(ab), bool(ts.last()), 'dm-absorbing', f'{task}: absorbing flag at step {t + 1}, time limit {nlim} (pixels)')
    m.seen('pixels', task, w, h)
    env.stop()


# ---------------------------------------------------------------- Atari
class Game:
    """Scripted game with lives; every raw frame is unique and logged."""

    def setup(self, seed, fire, lives, length, shape=(21, 16, 3)):
        self.g = np.random.RandomState(seed)
        self.fire, self.lives0, self.length, self.shape = fire, lives, length, shape
        self.observation_space = spaces.Box(low=0, high=255, shape=shape, dtype=np.uint8)
        self.action_space = spaces.Discrete(4)
        self.lv, self.t = lives, 0
        self.log = []
        self.script, self.bonus = [], []
        self.ale = type('Ale', (), {'lives': lambda s: self.lv})()
        LIVE.append(self)

    def get_action_meanings(self):
        return ['NOOP', 'FIRE' if self.fire else 'UP', 'RIGHT', 'LEFT']

    def frame(self):
        return self.g.randint(0, 256, self.shape).astype(np.uint8)

    def do_reset(self):
        self.lv, self.t = self.lives0, 0
        f = self.frame()
        self.log.append(('reset', None, f, 0., False, self.lv))
        return f

    def do_step(self, a):
        self.t += 1
        if self.t in self.bonus:
            self.lv += 1
        if self.script and self.t in self.script:
            self.lv -= 1
        done = self.lv <= 0 or self.t >= self.length
        f, r = self.frame(), float(self.g.randint(-2, 3))
        self.log.append(('step', int(a), f, r, done, self.lv))
        return f, r, done, dict(lives=self.lv)


class GameGym(gym.Env, Game):
    metadata = {'render_modes': []}

    def __init__(self, **kw):
        self.setup(**kw)

    def reset(self, *, seed=None, return_info=False, options=None):
        return self.do_reset()

    def step(self, a):
        return self.do_step(a)


class GameGymn(gymn.Env, Game):
    def __init__(self, **kw):
        self.setup(**kw)

    def reset(self, *, seed=None, options=None):
        return self.do_reset(), {}

    def step(self, a):
        f, r, d, i = self.do_step(a)
        return f, r, d, False, i

    def render(self):
        return np.zeros((4, 4, 3), dtype=np.uint8)


def gray(f, size):
    import cv2
    x = cv2.cvtColor(np.asarray(f), cv2.COLOR_RGB2GRAY)
    return np.array(cv2.resize(x, size, interpolation=cv2.INTER_LINEAR), dtype=np.uint8)


def atari(m, rng, lib, skip, fire, ends, pooling, steps):
    COUNT[0] += 1
    name = f'Verif{COUNT[0]}{"NoFrameskip" if skip else ""}-v0'
    kw = dict(seed=int(rng.randint(1 << 30)), fire=fire, lives=int(rng.randint(1, 4)), length=int(rng.randint(40, 90)))
    LIVE.clear()
    mod, cls, wrap = (gym, GameGym, Atari) if lib == 'gym' else (gymn, GameGymn, GymnasiumAtari)
    mod.register(id=name, entry_point=(lambda **k: cls(**kw)), max_episode_steps=100000)
    hist, noop, wd, ht = int(rng.randint(2, 5)), int(rng.choice([0, 1, 5])), int(rng.randint(5, 12)), int(rng.randint(5, 12))
    akw = dict(width=wd, height=ht, ends_at_life=ends, max_pooling=pooling, history_length=hist, max_no_op_actions=noop)
    for key, v in dict(width=84, height=84, ends_at_life=False, max_pooling=True, history_length=4, max_no_op_actions=30).items():
        if akw[key] == v and rng.rand() < .7 or rng.rand() < .03 and key not in ('ends_at_life', 'max_pooling'):
            del akw[key]                # documented defaults
            wd, ht, hist, noop = [v if key == n else x for n, x in zip(('width', 'height', 'history_length', 'max_no_op_actions'), (wd, ht, hist, noop))]
    env = wrap(name, **akw)
    game = LIVE[0]
    if noop == 30:
        game.length += 60
    game.script = sorted(set(rng.randint(8 + hist + noop, game.length - 1, int(rng.randint(kw['lives'] + 3))).tolist()))
    game.bonus = sorted(set(rng.randint(8 + hist + noop, game.length - 1, int(rng.choice([0, 2]))).tolist()) - set(game.script))
    m.ok(isinstance(env.info.action_space, Discrete) and env.info.action_space.n == 4 and env.info.observation_space.shape == (hist, ht, wd),
         'atari-space', f'spaces of the game, history {hist} height {ht} width {wd}')
    real, lives, frames, k, ends_now, count = True, kw['lives'], None, 0, ends, []
    while k < steps:
        game.log.clear()
        o, info = env.reset()
        calls = [c[0] for c in game.log]
        m.eq(calls, ['reset'] if real else [], 'atari-reset', f'calls to the game at reset (after {"game over" if real else "a lost life"})')
        if real:
            first = gray(game.log[0][2], (wd, ht))
            frames = [first] * hist
            lives = kw['lives']
        m.ok(np.array_equal(np.array(o), np.array(frames)), 'atari-reset-frames', 'frames after reset')
        m.ok(isinstance(info, dict), 'atari-reset-info', 'reset returns an info dictionary')
        first_step, fire_next = True, fire
        while k < steps:
            if rng.rand() < .02:
                ends_now = bool(rng.rand() < .5)
                env.set_episode_end(ends_now)
            a = int(rng.randint(2, 4))
            game.log.clear()
            o, r, ab, info = env.step(np.array([a]))
            k += 1
            m.event('atari-step')
            log = list(game.log)
            pre = [c for c in log if c[1] in (0, 1)]
            main = [c for c in log if c[1] == a]
            m.ok(len(pre) + len(main) == len(log) and log[:len(pre)] == pre, 'atari-calls', f'actions sent {[c[1] for c in log]} for action {a}')
            m.eq(sum(c[1] == 1 for c in pre), int(fire_next), 'atari-fire', f'fire pressed {[c[1] for c in pre]} (expected {fire_next})')
            nn = sum(c[1] == 0 for c in pre)
            m.ok(nn <= (noop if first_step else 0), 'atari-noop', f'{nn} no-op actions with a maximum of {noop}, first step of the episode: {first_step}')
            m.event('noop', nn)
            if first_step:
                count.append(nn)
            done = [i for i, c in enumerate(main) if c[4]]
            want_n = (hist if skip else 1) if not done else done[0] + 1
            m.eq(len(main), want_n, 'atari-skip', 'number of game frames of a step')
            m.close(r, sum(c[3] for c in main), 'atari-reward', 'reward is the sum over the skipped frames')
            over = bool(done)
            lost = main[-1][5] < lives
            m.event('life-gained', int(main[-1][5] > lives))
            m.event('life-lost', int(lost))
            m.event('game-over', int(over))
            m.eq(bool(ab), over or (lost and ends_now), 'atari-absorbing', f'absorbing with life lost {lost} game over {over} ends_at_life {ends_now}')
            m.eq(info['lives'], main[-1][5], 'atari-info', 'lives reported')
            got = np.array(o)
            m.eq(got.shape, (hist, ht, wd), 'atari-frames', 'shape of the observation')
            full = len(main) == (hist if skip else 1)
            if full:
                if skip:
                    pair = np.array([main[-2][2], main[-1][2]])
                    new = gray(pair.max(axis=0), (wd, ht)) if pooling else None
                    if not pooling:
                        fl = pair.mean(axis=0).astype(np.float32)
                        alt = gray(fl.astype(np.uint8), (wd, ht))
                        m.ok(np.abs(got[-1].astype(float) - alt.astype(float)).max() <= 2, 'atari-mean', 'average of the last two frames')
                        new = got[-1]
                else:
                    new = gray(main[-1][2], (wd, ht))
                m.ok(np.array_equal(got[-1], new), 'atari-newest', 'the newest frame of the observation is the pooled screen')
            m.ok(np.array_equal(got[:-1], np.array(frames[1:])), 'atari-history', 'the older frames are those of the previous observation, in order')
            m.event('frame', hist)
            frames = list(got)
            lives = main[-1][5]
            fire_next = bool(fire and lost)
            first_step = False
            real = over
            if ab:
                break
            if rng.rand() < .02:
                env.stop()
                m.event('stopped')
                real = True             # a stopped game starts again
                break
    if noop == 1:
        for _ in range(80):
            env.stop()
            env.reset()
            game.log.clear()
            env.step(np.array([2]))
            count.append(sum(c[1] == 0 for c in game.log))
        m.eq(set(count), {0, 1}, 'atari-noop-range', 'numbers of no-op actions seen with a maximum of 1')
        m.event('noop-range')
    m.seen('atari', lib, skip, fire, ends, pooling, hist, noop)
    env.stop()


class Grid(gym.Env):
    metadata = {'render_fps': 10}

    def __init__(self, max_steps=12, **kw):
        self.max_steps, self.step_count = max_steps, 0
        self.observation_space = spaces.Dict({'image': spaces.Box(low=0, high=255, shape=(7, 7, 3), dtype=np.uint8)})
        self.action_space = spaces.Discrete(7)
        self.g = np.random.RandomState(99)
        self.log = []
        LIVE.append(self)

    def seed(self, seed=None):
        self.g = np.random.RandomState(seed)
        return [seed]

    def obs(self):
        return dict(image=self.g.randint(0, 256, (7, 7, 3)).astype(np.uint8))

    def reset(self, **kw):
        self.step_count = 0
        o = self.obs()
        self.log.append(('reset', None, o['image']))
        return o

    def step(self, action):
        self.step_count += 1
        goal = bool(self.g.rand() < .05)
        r = 1 - .9 * self.step_count / self.max_steps if goal else 0
        done = goal or self.step_count >= self.max_steps
        o = self.obs()
        self.log.append(('step', np.array(action).item(), o['image'], goal, r))
        return o, r, done, dict(goal=goal)


def minigrid(m, rng, steps):
    COUNT[0] += 1
    name = f'Verif{COUNT[0]}-v0'
    lim = int(rng.randint(5, 15))
    gym.register(id=name, entry_point=(lambda **k: Grid(max_steps=lim)))
    LIVE.clear()
    hz, hist, pix = (None if rng.rand() < .5 else int(rng.randint(5, 30))), int(rng.randint(1, 5)), bool(rng.rand() < .5)
    fixed = None if rng.rand() < .5 else int(rng.randint(1000))
    gam = .99 if rng.rand() < .5 else .9
    hist = 4 if rng.rand() < .4 else hist
    make = gym.make
    gym.make = lambda n, **k: make(n, disable_env_checker=True, **k)   # its checker does not accept dictionary observations
    try:
        kw = dict(horizon=hz, gamma=gam, history_length=hist, fixed_seed=fixed, use_pixels=pix)
        for k, v in dict(horizon=None, gamma=.99, history_length=4, fixed_seed=None, use_pixels=False).items():
            if kw[k] == v and rng.rand() < .6:
                del kw[k]               # documented defaults
        env = MiniGrid(name, **kw)
    finally:
        gym.make = make
    game = LIVE[0]
    side = 14 if pix else 7
    m.ok(np.all(env.info.observation_space.low == 0) and np.all(env.info.observation_space.high == 255) or not pix, 'minigrid-space', 'bounds of pixel observations')
    m.eq((env.info.horizon, env.info.gamma, env.info.observation_space.shape, env.info.action_space.n), (lim if hz is None else hz, gam, (hist, side, side), 7),
         'minigrid-info', 'horizon, gamma, observation shape and number of actions')

    def see(img):
        img = np.kron(img, np.ones((2, 2, 1), dtype=np.uint8)) if pix else img
        return gray(img, (side, side))
    H = env.info.horizon
    first, k = None, 0
    while k < steps:
        game.log.clear()
        o, info = env.reset()
        m.eq([c[0] for c in game.log], ['reset'], 'minigrid-reset', 'one reset reaches the environment')
        f = [see(game.log[0][2])] * hist
        m.ok(np.array_equal(np.array(o), np.array(f)), 'minigrid-frames', 'frames after reset')
        if fixed is not None:
            if first is not None:
                m.ok(np.array_equal(first, f[0]), 'minigrid-fixed-seed', 'with a fixed seed every episode starts from the same grid')
            first = f[0]
        for t in range(H):
            a = int(rng.randint(7))
            game.log.clear()
            o, r, ab, info = env.step(np.array([a]))
            k += 1
            m.event('minigrid-step')
            c = game.log[0]
            f = f[1:] + [see(c[2])]
            m.ok(np.array_equal(np.array(o), np.array(f)), 'minigrid-frames', 'the last frames, in order')
            m.eq((len(game.log), c[1]), (1, a), 'minigrid-action', 'action received by the environment')
            m.eq((float(r), bool(ab)), (1. if c[3] else 0., c[3]), 'minigrid-end', f'reward and absorbing flag at step {t + 1}, goal {c[3]}, limit {lim}, horizon {H}')
            if ab:
                break
    m.seen('minigrid', hz is None, hist, pix, fixed is None)


def cases(tier, rng):
    q = tier == 'quick'
    for _ in range(8 if q else 100):
        for lib in ('gym', 'gymnasium'):
            for ok in ('box', 'box2', 'discrete'):
                for ak in ('discrete', 'box'):
                    yield 'generated', dict(lib=lib, obs_kind=ok, act_kind=ak, steps=60)
    for i in range(24 if q else 300):
        yield 'core_run', dict(lib=['gym', 'gymnasium'][i % 2])
    for _ in range(3 if q else 30):
        for n in CLASSIC:
            yield 'classic', dict(name=n, steps=150)
    order = rng.permutation(len(TASKS))
    for i in np.tile(order, 1 if q else 12):
        yield 'dm', dict(task=list(TASKS[int(i)]), steps=40)
    for i in range(4 if q else 30):
        yield 'pixels', dict(task=list(PIX[i % len(PIX)]), steps=10)
    for _ in range(12 if q else 150):
        yield 'minigrid', dict(steps=60)
    for _ in range(4 if q else 60):
        for lib in ('gym', 'gymnasium'):
            for skip in (True, False):
                for fire in (True, False):
                    for ends in (True, False):
                        for pooling in ((True, False) if skip else (True,)):
                            yield 'atari', dict(lib=lib, skip=skip, fire=fire, ends=ends, pooling=pooling, steps=60)
