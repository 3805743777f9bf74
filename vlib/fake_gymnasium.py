"""Stand-in for the gymnasium package (not installed here): the part of its interface the wrappers use, with the five-tuple step."""
import sys
import types

from gym import spaces

REG = {}


class Env:
    metadata = {'render_fps': 30}

    @property
    def unwrapped(self):
        return self

    def reset(self, *, seed=None, options=None):
        raise NotImplementedError

    def close(self):
        pass


class Wrapper(Env):
    def __init__(self, env):
        self.env = env

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(f"accessing private attribute '{name}' is prohibited")
        return getattr(self.env, name)

    @property
    def unwrapped(self):
        return self.env.unwrapped

    @property
    def observation_space(self):
        return self.env.observation_space

    @property
    def action_space(self):
        return self.env.action_space

    def reset(self, **kw):
        return self.env.reset(**kw)

    def step(self, action):
        return self.env.step(action)

    def render(self):
        return self.env.render()

    def close(self):
        return self.env.close()


class OrderEnforcing(Wrapper):
    pass


class TimeLimit(Wrapper):
    def __init__(self, env, max_episode_steps):
        super().__init__(env)
        self._max_episode_steps = max_episode_steps
        self._elapsed_steps = None

    def step(self, action):
        obs, r, term, trunc, info = self.env.step(action)
        self._elapsed_steps += 1
        if self._elapsed_steps >= self._max_episode_steps:
            trunc = True
        return obs, r, term, trunc, info

    def reset(self, **kw):
        self._elapsed_steps = 0
        return self.env.reset(**kw)


def register(id, entry_point, max_episode_steps=None):
    REG[id] = (entry_point, max_episode_steps)


def make(id, render_mode=None, **kw):
    cls, limit = REG[id]
    env = OrderEnforcing(cls(**kw))
    return TimeLimit(env, limit) if limit is not None else env


def install():
    """Make 'import gymnasium' resolve to this stand-in when the package is missing; True when the stand-in is in use."""
    try:
        import gymnasium                                    # noqa: F401
        return False
    except ImportError:
        pass
    mod = types.ModuleType('gymnasium')
    mod.Env, mod.Wrapper, mod.make, mod.register, mod.spaces = Env, Wrapper, make, register, spaces
    mod.logger = types.SimpleNamespace(set_level=lambda *a: None)
    sys.modules['gymnasium'] = mod
    sys.modules['gymnasium.spaces'] = spaces
    return True
