"""C39: air hockey and ball-in-a-cup tasks."""
import copy

import numpy as np
import mujoco
import pybullet
from scipy import stats

from mushroom_rl.environments.mujoco_envs import AirHockeyHit, AirHockeyDefend, AirHockeyPrepare, AirHockeyRepel, BallInACup
from mushroom_rl.environments.mujoco_envs.air_hockey.double import AirHockeyDouble
from mushroom_rl.environments.pybullet_envs.air_hockey import AirHockeyHitBullet, AirHockeyDefendBullet, AirHockeyPrepareBullet, AirHockeyRepelBullet
from mushroom_rl.environments.pybullet_envs.air_hockey.double import AirHockeyDoubleBullet

PROPERTY = 'C39'
RULE = ('subclasses of every task record the simulator state and the contacts after each simulation step while the puck is thrown in random directions and the '
        'robots move randomly; the monitor recomputes from that record the observation in the robot frame, the hit and bounce flags, the end of the episode, the '
        'reward and the constraint information of every step, and checks the initial situation of every reset')
NEED = {'mj-step': 2000, 'pb-step': 2000, 'hit': 40, 'bounce': 40, 'absorbing': 60, 'scored': 5, 'conceded': 5, 'reset': 200, 'random-init': 60, 'noisy-observation': 200,
        'delayed-observation': 200, 'constraint': 2000, 'hit-by-robot-2': 3, 'cup-goal': 10, 'cup-contact': 3, 'slow-end': 3, 'pushed': 6}
CASE_LIMIT = 300
LENGTH, WIDTH, GOAL = 1.96, 1.02, .25
RANGES = dict(hit=[[-.65, -.25], [-.4, .4]], defend=[[.25, .65], [-.4, .4]], repel=[[.25, .65], [-.4, .4]], side=[[-.8, -.4], [.25, .46]], bottom=[[-.9, -.8], [.125, .46]])
Q0 = np.array([-.9273, .9273, np.pi / 2])


# ------------------------------------------------------------------------- reference
def gauss(x, s):
    return np.exp(-.5 * (x / s) ** 2) / (s * np.sqrt(2 * np.pi))


class Task:
    """Reference of the task: flags, end of the episode and reward from table-frame quantities."""

    def __init__(self, kind, sub, penalty, bullet, boundary=False):
        self.kind, self.sub, self.penalty, self.bullet, self.boundary = kind, sub, penalty, bullet, boundary

    def start(self, puck):
        self.hit = self.bounce = False
        self.puck0 = puck.copy()
        g = np.array([LENGTH / 2, 0.])
        self.to_goal = (g - puck) / np.linalg.norm(g - puck)
        # mirror the goal at the side wall next to the puck (half a puck away from it)
        wall = np.copysign(WIDTH / 2 - .03165, puck[1])
        mirrored = np.array([g[0], 2 * wall - g[1]])
        self.to_wall = (mirrored - puck) / np.linalg.norm(mirrored - puck)

    def ended(self, p, v, height=0., ee=None):
        if abs(p[0]) > LENGTH / 2 or abs(p[1]) > WIDTH / 2:
            return True
        if self.bullet:
            if abs(height) > .05:
                return True
            if self.boundary and any(abs(e[0]) > LENGTH / 2 or abs(e[1]) > WIDTH / 2 for e in ee):
                return True
        if self.kind == 'hit':
            return self.bullet and (self.bounce or (self.hit and np.linalg.norm(v[:2]) < .01))
        if self.kind == 'defend':
            return (self.hit or self.bounce) and p[0] > (-.3 if self.bullet else 0)
        if self.kind == 'repel':
            return self.bounce
        if self.kind == 'prepare':
            if self.hit and (p[0] > 0 or abs(p[1]) < .01):
                return True
            return self.bounce and self.sub == 'side'
        return False

    def reward(self, p, v, ee, a, absorbing):
        cost = self.penalty * np.linalg.norm(a)
        scored = p[0] > LENGTH / 2 and abs(p[1]) < GOAL
        conceded = p[0] < -LENGTH / 2 and abs(p[1]) < GOAL
        d = p - ee
        dist = np.linalg.norm(d)
        d = d / dist
        track = .3 * np.exp(-3 * abs(-.6 - ee[0])) + .35 * gauss(abs(p[1] - ee[1]) - .08, .2)
        if self.kind == 'hit':
            if absorbing:
                r = 200. if scored else 0.
                if self.boundary and (abs(ee[0]) > LENGTH / 2 or abs(ee[1]) > WIDTH / 2):
                    r = -10.
            elif not self.hit:
                c = np.clip(max(self.to_goal @ d, self.to_wall @ d), 0, 1)
                r = np.exp(-8 * (dist - .08)) * c ** 2
            else:
                r = 2 * (.25 + min(1, .25 * v[0] ** 4)) + (10 * gauss(p[1], .1) if p[0] > .7 else 0)
        elif self.kind == 'defend':
            if absorbing:
                r = -50. if conceded else 0.
            elif self.bounce:
                r = -1.
            elif self.hit:
                r = 3 * np.exp(-3 * abs(p[1])) + np.exp(-5 * abs(p[0] + .6)) + 5 * np.exp(-(5 * np.linalg.norm(v)) ** 2) + 1 if -.8 < p[0] < -.4 else 0.
            else:
                r = track
        elif self.kind == 'repel':
            if absorbing:
                r = -50. if conceded else 0.
            elif self.hit:
                r = p[0] + .98 + min(v[0] ** 3, 5) + 1 + (100 * np.exp(-3 * abs(p[1])) if p[0] > .9 else 0)
            else:
                r = track
        else:
            v = v[:2]
            end = np.linalg.norm(ee - [-.810001913, -1.43459494e-06])
            if self.sub == 'side':
                if absorbing and abs(p[1]) < .47:
                    return 100 * np.exp(-2 * np.linalg.norm(v))
                if self.hit:
                    r = max(0, 1 - 10 * (np.exp(abs(v[0])) - 1)) + .5 - end + 1 if p[0] < -.35 and abs(p[1]) < .47 else 0.
                else:
                    r = np.exp(-8 * (dist - .08)) * np.clip(d[1] * np.copysign(1, p[1]), 0, 1) ** 2
            else:
                if absorbing and p[0] >= -.6:
                    return 100 * np.exp(-2 * np.linalg.norm(v))
                if self.hit:
                    r = gauss(p[0] + .75, .1) + 2 - abs(v[1]) + .5 * np.exp(-3 * end) + 1 if -.9 < p[0] < -.6 and abs(p[1]) < .47 else 0.
                else:
                    c = np.clip(max(.2 * d[0] + .8 * abs(1) * np.copysign(1, p[1]) * d[1], -d[0]), 0, 1)
                    r = np.exp(-8 * (dist - .08)) * c ** 2
        return r - cost


def near(p, v, task, height=0., ee=()):
    """close to one of the thresholds of the task"""
    t = [abs(p[0]) - LENGTH / 2, abs(p[1]) - WIDTH / 2, abs(p[1]) - GOAL, p[0], p[0] + .3, abs(p[1]) - .01, abs(p[1]) - .47, p[0] + .6, p[0] + .9, p[0] + .35, p[0] + .8, p[0] + .4, p[0] - .7,
         p[0] - .9, np.linalg.norm(v[:2]) - .01, abs(height) - .05]
    for e in ee:
        t += [abs(e[0]) - LENGTH / 2, abs(e[1]) - WIDTH / 2]
    return np.min(np.abs(t)) < 1e-9


def aim(rng, puck, ee, kind):
    """velocity of the puck after a throw"""
    how = str(rng.choice(['ee', 'goal', 'home', 'any', 'none', 'slow'], p=[.3, .2, .15, .15, .1, .1] if kind != 'double' else [.7, .1, .1, .1, 0, 0]))
    speed = rng.uniform(.8, 4)
    if how == 'none':
        return None
    if how == 'ee':
        d = ee - puck + rng.normal(size=2) * .01
    elif how == 'goal':
        d = np.array([LENGTH / 2 + .3, rng.uniform(-.3, .3)]) - puck
    elif how == 'home':
        d = np.array([-LENGTH / 2 - .3, rng.uniform(-.3, .3)]) - puck
    else:
        d = rng.normal(size=2)
        if how == 'slow':
            speed = rng.uniform(.02, .3)
    return speed * d / np.linalg.norm(d)


def options(rng, kind, bullet):
    kw = dict(action_penalty=float(rng.choice([0., 1e-3, .1])), random_init=bool(rng.rand() < .5), n_intermediate_steps=int(rng.randint(1, 5)), timestep=float(rng.choice([1 / 240., 1 / 300.])),
              gamma=.97, horizon=77)
    sub = None
    if kind == 'prepare':
        sub = kw['sub_problem'] = str(rng.choice(['side', 'bottom']))
    if kind == 'hit':
        kw['init_robot_state'] = str(rng.choice(['right', 'left']))
    if kind in ('defend', 'repel') and rng.rand() < .5:
        lo = rng.uniform(.2, 3)
        kw['init_velocity_range'] = (float(lo), float(lo + rng.uniform(.01, 2)))
    return kw, sub


def check_start(m, kind, sub, kw, p, v, q, qd):
    rg = np.array(RANGES[sub or kind])
    if kw['random_init']:
        m.event('random-init')
        y = abs(p[1]) if kind == 'prepare' else p[1]
        m.ok(rg[0, 0] - 1e-9 <= p[0] <= rg[0, 1] + 1e-9 and rg[1, 0] - 1e-9 <= y <= rg[1, 1] + 1e-9, 'initial-puck', f'{kind} {sub}: puck starts at {p[:2]} outside of {rg.tolist()}')
    else:
        m.close(p[:2], [rg[0].mean(), 0. if kind in ('defend', 'repel') else rg[1].mean()], 'initial-puck', f'{kind}: initial puck position')
    if kind in ('defend', 'repel'):
        if kw['random_init']:
            lo, hi = kw.get('init_velocity_range', (1, 2.2))
            sp = np.hypot(v[0], v[1])
            m.ok(lo - 1e-9 <= sp <= hi + 1e-9 and abs(np.arctan2(v[1], -v[0])) <= .5 + 1e-9, 'initial-velocity', f'{kind}: puck starts with velocity {v[:2]}, range {lo, hi}')
        else:
            m.close(v[:2], [-1., 0.], 'initial-velocity', f'{kind}: initial puck velocity')
    else:
        m.close(v[:2], [0., 0.], 'initial-velocity', f'{kind}: initial puck velocity')
    want = -Q0 if kw.get('init_robot_state') == 'left' else Q0
    m.close(q, want, 'initial-robot', f'{kind}: initial joint positions')
    m.close(qd, np.zeros(3), 'initial-robot', f'{kind}: initial joint velocities')


# ------------------------------------------------------------------------- MuJoCo
MJ = dict(hit=AirHockeyHit, defend=AirHockeyDefend, prepare=AirHockeyPrepare, repel=AirHockeyRepel, double=AirHockeyDouble)
SHORT = {'rim_home_l', 'rim_home_r', 'rim_away_l', 'rim_away_r'}


def mj_class(base, rec):
    class Env(base):
        def setup(self, obs):
            super().setup(obs)
            d = self._data
            rec.start = (d.joint('puck').qpos[:2].copy(), d.joint('puck').qvel[[0, 1, 5]].copy())
            mujoco.mj_kinematics(self._model, d)
            if rec.throw is not None:
                v = rec.throw(rec.start[0], [d.body(f'planar_robot_{k + 1}/body_ee').xpos[:2].copy() for k in range(rec.n)])
                if v is not None:
                    self._write_data('puck_vel', np.array([v[0], v[1], 0, 0, 0, rec.spin]))

        def _simulation_post_step(self):
            super()._simulation_post_step()
            c = self._data.contact
            rec.touch.append({frozenset((self._model.geom(int(a)).name, self._model.geom(int(b)).name)) for a, b in zip(c.geom1[:self._data.ncon], c.geom2[:self._data.ncon])})
    return Env


class Rec:
    throw, n, spin = None, 1, 0.

    def __init__(self):
        self.touch = []


def mj_state(env, n):
    d = env._data
    p, v = d.joint('puck').qpos[:2].copy(), d.joint('puck').qvel[[0, 1, 5]].copy()
    q = [np.array([d.joint(f'planar_robot_{k + 1}/joint_{j + 1}').qpos[0] for j in range(3)]) for k in range(n)]
    qd = [np.array([d.joint(f'planar_robot_{k + 1}/joint_{j + 1}').qvel[0] for j in range(3)]) for k in range(n)]
    ee = [d.body(f'planar_robot_{k + 1}/body_ee').xpos.copy() for k in range(n)]
    return p, v, q, qd, ee


def mj_frames(env, n):
    out = []
    for k in range(n):
        b = env._model.body(f'planar_robot_{k + 1}/base')
        w, x, y, z = b.quat
        yaw = np.arctan2(2 * (w * z + x * y), 1 - 2 * (y * y + z * z))
        out.append((np.array([[np.cos(yaw), -np.sin(yaw)], [np.sin(yaw), np.cos(yaw)]]), b.pos[:2].copy()))
    return out


def robot_view(fr, p, v):
    R, t = fr
    return np.concatenate([R.T @ (p - t), R.T @ v[:2], v[2:3]])


def mujoco_task(m, rng, kind, episodes, noise=False, dynamics_noise=False):
    n = 2 if kind == 'double' else 1
    rec = Rec()
    rec.n = n
    if kind == 'double':
        kw, sub = dict(n_intermediate_steps=int(rng.randint(1, 5)), timestep=float(rng.choice([1 / 240., 1 / 300.])), gamma=.97, horizon=77), None
    else:
        kw, sub = options(rng, kind, False)
    env = mj_class(MJ[kind], rec)(env_noise=dynamics_noise, obs_noise=noise, **kw)
    task = Task(kind, sub, kw.get('action_penalty', 0.), False)
    m.seen('mj', kind, sub, kw['n_intermediate_steps'], noise, dynamics_noise, kw.get('random_init'), kw.get('init_robot_state'))
    m.close(env.info.dt, kw['timestep'] * kw['n_intermediate_steps'], 'dt', 'control period')
    m.eq((env.info.gamma, env.info.horizon), (.97, 77), 'info', 'gamma and horizon')
    fr = mj_frames(env, n)
    names = [f'planar_robot_{k + 1}/joint_{j + 1}' for k in range(n) for j in range(3)]
    lim = np.array([env._model.joint(x).range for x in names])
    vmax = np.tile([np.pi / 2, np.pi / 2, 2 * np.pi / 3], n)
    nobs = (11 * n) + (2 if n == 1 else 3)
    m.eq(env.info.observation_space.shape, (nobs,), 'observation-space', 'size of the observation')
    lo, hi = env.info.observation_space.low, env.info.observation_space.high
    for k in range(n):
        o = 11 * k
        m.close(lo[o + 5:o + 8], lim[3 * k:3 * k + 3, 0], 'observation-space', 'lower joint limits')
        m.close(hi[o + 5:o + 8], lim[3 * k:3 * k + 3, 1], 'observation-space', 'upper joint limits')
        m.close(hi[o + 8:o + 11], vmax[3 * k:3 * k + 3], 'observation-space', 'joint velocity limits')
    m.ok(np.all(lo[11 * n:] == 0) and np.all(hi[11 * n:] == 1), 'observation-space', 'bounds of the flags')

    def check_obs(o, p, v, q, qd, flags, what):
        want = np.concatenate([np.concatenate([robot_view(fr[k], p, v), q[k], qd[k]]) for k in range(n)] + [np.array(flags, float)])
        m.eq(o.shape, (nobs,), 'observation', f'{kind}: shape of the {what}')
        if noise:
            ix = [i for k in range(n) for i in (11 * k, 11 * k + 1)]
            e = (o - want)[ix]
            m.ok(np.all(np.abs(e) < 1e-2) and np.all(e != 0), 'noise', f'{kind}: observation noise {e}')
            errs.append(e)
            o = o.copy()
            o[ix] = want[ix]
            m.event('noisy-observation')
        m.close(o, want, 'observation', f'{kind}: {what}', rtol=1e-9, atol=1e-10)
    errs = []
    for ep in range(episodes):
        target = int(rng.randint(n))
        rec.throw = None if rng.rand() < .25 else (lambda p, ee: aim(rng, p, ee[target], kind))
        rec.spin = float(rng.uniform(-3, 3))
        o, _ = env.reset()
        m.event('reset')
        p0, v0 = rec.start
        p, v, q, qd, ee = mj_state(env, n)
        if kind != 'double':
            check_start(m, kind, sub, kw, p0, v0, q[0], qd[0])
            task.start(p0)
        else:
            for k in range(2):
                m.close(q[k], Q0, 'initial-robot', 'double: initial joint positions')
        flags = [False] * (2 if n == 1 else 3)
        task.hit = task.bounce = False
        check_obs(o, p, v, q, qd, flags, 'observation after reset')
        amp = float(rng.choice([0, .5, 3, 10]))
        base = rng.normal(size=3 * n)
        for t in range(int(rng.randint(10, 120))):
            if rng.rand() < .1:
                base = rng.normal(size=3 * n)
            a = amp * base
            rec.touch.clear()
            o, r, ab, info = env.step(a.copy())
            m.event('mj-step')
            m.eq(len(rec.touch), kw['n_intermediate_steps'], 'substeps', 'simulation steps per control step')
            p, v, q, qd, ee = mj_state(env, n)
            if not np.all(np.isfinite(np.concatenate([p, v]))):
                break
            for c in rec.touch:
                for k in range(n):
                    if frozenset(('puck', f'planar_robot_{k + 1}/ee')) in c and not flags[k]:
                        flags[k] = True
                        m.event('hit')
                        m.event('hit-by-robot-2', int(k == 1))
                if any(frozenset(('puck', s)) in c for s in SHORT) and not flags[-1]:
                    flags[-1] = True
                    m.event('bounce')
            task.hit, task.bounce = flags[0], flags[-1]
            check_obs(o, p, v, q, qd, flags, f'observation at step {t}')
            if not near(p, v, task):
                want = bool(task.ended(p, v)) or np.linalg.norm(v) > 100
                m.eq(bool(ab), want, 'absorbing', f'{kind} {sub}: end of the episode, puck {p} velocity {v} hit {task.hit} bounce {task.bounce}')
                wr = 0. if kind == 'double' else task.reward(p, v[:2], ee[0][:2], a, want)
                m.close(r, wr, 'reward', f'{kind} {sub}: reward, puck {p} velocity {v} ee {ee[0][:2]} hit {task.hit} bounce {task.bounce} absorbing {ab}', rtol=1e-7, atol=1e-8)
                m.event('scored', int(want and p[0] > LENGTH / 2 and abs(p[1]) < GOAL))
                m.event('conceded', int(want and p[0] < -LENGTH / 2 and abs(p[1]) < GOAL))
                m.event('slow-end', int(want and kind == 'prepare' and abs(p[0]) < .98 and abs(p[1]) < .47))
            # accessors
            if n == 1:
                e = env.get_ee()
                m.close(e[0], ee[0], 'accessors', 'position of the end effector')
                es = [e]
            else:
                es = [env.get_ee(1), env.get_ee(2)]
                m.close(es[1][0], ee[1], 'accessors', 'position of the second end effector')
                m.close(es[0][0], ee[0], 'accessors', 'position of the first end effector')
            if not noise:
                g = env.get_puck(o)
                w = robot_view(fr[0], p, v)
                m.close(np.concatenate([g[0], g[1], np.atleast_1d(g[2])]), w, 'accessors', 'puck position, linear and angular velocity', rtol=1e-9, atol=1e-10)
            # constraints
            d2 = copy.copy(env._data)
            mujoco.mj_kinematics(env._model, d2)
            for k in range(n):
                c = info if n == 1 else info[f'agent-{k + 1}']
                R, tr = fr[k]
                x = R.T @ (d2.body(f'planar_robot_{k + 1}/body_ee').xpos[:2] - tr) + fr[0][1]
                m.close(c['ee_constraints'], [-x[0] - (LENGTH / 2 + .05), -x[1] - (WIDTH / 2 - .05), x[1] - (WIDTH / 2 - .05)], 'constraints', f'{kind}: end effector constraints of robot {k + 1}', rtol=1e-6, atol=1e-7)
                L = lim[3 * k:3 * k + 3]
                m.close(c['joint_pos_constraints'], np.concatenate([q[k] - L[:, 1], L[:, 0] - q[k]]), 'constraints', f'{kind}: joint position constraints of robot {k + 1}', rtol=1e-9, atol=1e-10)
                V = vmax[3 * k:3 * k + 3]
                m.close(c['joint_vel_constraints'], np.concatenate([qd[k] - V, -V - qd[k]]), 'constraints', f'{kind}: joint velocity constraints of robot {k + 1}', rtol=1e-9, atol=1e-10)
                m.event('constraint')
            if ab:
                m.event('absorbing')
                break
    if len(errs) > 30:
        z = np.array(errs).ravel() / .001
        m.ok(stats.kstest(z if n == 1 else np.array(errs)[:, :2].ravel() / .001, 'norm').pvalue > 1e-9, 'noise', 'distribution of the observation noise')


# ------------------------------------------------------------------------- PyBullet
PB = dict(hit=AirHockeyHitBullet, defend=AirHockeyDefendBullet, prepare=AirHockeyPrepareBullet, repel=AirHockeyRepelBullet, double=AirHockeyDoubleBullet)
RIMS = ['t_down_rim_l', 't_down_rim_r', 't_up_rim_l', 't_up_rim_r']


def pb_ids(client):
    models, links, joints = {}, {}, {}
    for i in range(client.getNumBodies()):
        i = client.getBodyUniqueId(i)
        models[client.getBodyInfo(i)[1].decode()] = i
        for j in range(client.getNumJoints(i)):
            d = client.getJointInfo(i, j)
            links[d[12].decode()] = (i, j)
            joints[d[1].decode()] = (i, j)
    return models, links, joints


def pb_class(base, rec):
    class Env(base):
        def setup(self, state):
            if rec.double:
                for n in rec.jn:
                    self.client.resetJointState(*rec.joints[n], float(Q0[rec.jn.index(n) % 3]))
            else:
                super().setup(state)
            c = self.client
            puck = rec.models['puck']
            rec.start = (np.array(c.getBasePositionAndOrientation(puck)[0]), np.array(c.getBaseVelocity(puck)[0]))
            if rec.throw is not None:
                ee = [np.array(c.getLinkState(*rec.links[f'planar_robot_{k + 1}/link_striker_ee'], computeForwardKinematics=1)[0][:2]) for k in range(rec.n)]
                v = rec.throw(rec.start[0][:2], ee)
                if v is not None:
                    c.resetBaseVelocity(puck, [v[0], v[1], 0], [0, 0, rec.spin])

        def _simulation_post_step(self):
            super()._simulation_post_step()
            if rec.models is None:
                return
            c = self.client
            puck = rec.models['puck']
            v = np.array(c.getBaseVelocity(puck)[0])

            def touching(link):
                a, b = (puck, -1), rec.links[link]
                return any(((x[1], x[3]), (x[2], x[4])) in ((a, b), (b, a)) for x in c.getContactPoints())
            rec.touch.append((v, {x for x in RIMS if touching(x)}, [touching(f'planar_robot_{k + 1}/link_striker_ee') for k in range(rec.n)]))

        if rec.double:
            def reward(self, state, action, next_state, absorbing):
                return 0.
    return Env


def bullet_task(m, rng, kind, episodes, noise=False, dynamics_noise=False, delay=False, boundary=False):
    n = 2 if kind == 'double' else 1
    rec = Rec()
    rec.n, rec.models, rec.double = n, None, kind == 'double'
    if kind == 'double':
        kw, sub = dict(n_intermediate_steps=int(rng.randint(1, 5)), timestep=float(rng.choice([1 / 240., 1 / 300.])), gamma=.97, horizon=77), None
    else:
        kw, sub = options(rng, kind, True)
    torque = bool(rng.rand() < .7)
    calls = []
    fun = None
    if rng.rand() < .5:
        def fun(state, action):
            calls.append((np.array(state), np.array(action)))
            return .5 * np.asarray(action)
    env = pb_class(PB[kind], rec)(env_noise=dynamics_noise, obs_noise=noise, obs_delay=delay, table_boundary_terminate=boundary, torque_control=torque, step_action_function=fun, **kw)
    c = env.client
    rec.models, rec.links, rec.joints = pb_ids(c)
    jn = rec.jn = [f'planar_robot_{k + 1}/joint_{j + 1}' for k in range(n) for j in range(3)]
    task = Task(kind, sub, kw.get('action_penalty', 0.), True, boundary)
    m.seen('pb', kind, sub, kw['n_intermediate_steps'], noise, dynamics_noise, delay, boundary, torque, fun is not None, kw.get('random_init'))
    m.close(env.info.dt, kw['timestep'] * kw['n_intermediate_steps'], 'dt', 'control period')
    m.eq((env.info.gamma, env.info.horizon), (.97, 77), 'info', 'gamma and horizon')
    nf = dict(hit=1, defend=2, prepare=1, repel=1, double=0)[kind]
    nobs = 11 * n + nf
    m.eq(env.info.observation_space.shape, (nobs,), 'observation-space', 'size of the observation')
    m.eq(env.info.action_space.shape, (3 * n,), 'observation-space', 'size of the action')
    ji = [c.getJointInfo(*rec.joints[x]) for x in jn]
    lo, hi = env.info.observation_space.low, env.info.observation_space.high
    for k in range(n):
        o = 11 * k
        m.close(lo[o + 5:o + 8], [d[8] for d in ji[3 * k:3 * k + 3]], 'observation-space', 'lower joint limits')
        m.close(hi[o + 5:o + 8], [d[9] for d in ji[3 * k:3 * k + 3]], 'observation-space', 'upper joint limits')
        m.close(hi[o + 8:o + 11], [d[11] for d in ji[3 * k:3 * k + 3]], 'observation-space', 'joint velocity limits')
    fr = [(np.eye(2), np.array([-1.51, 0.])), (-np.eye(2), np.array([1.51, 0.]))]

    def state():
        pos = np.array(c.getBasePositionAndOrientation(rec.models['puck'])[0])
        lv, av = [np.array(x) for x in c.getBaseVelocity(rec.models['puck'])]
        js = [c.getJointState(*rec.joints[x])[:2] for x in jn]
        ee = [np.array(c.getLinkState(*rec.links[f'planar_robot_{k + 1}/link_striker_ee'])[0]) for k in range(n)]
        return pos, lv, av, [np.array([x[0] for x in js[3 * k:3 * k + 3]]) for k in range(n)], [np.array([x[1] for x in js[3 * k:3 * k + 3]]) for k in range(n)], ee
    errs, prev = [], None

    def check_obs(o, s, flags, what):
        nonlocal prev
        pos, lv, av, q, qd, ee = s
        want = np.concatenate([np.concatenate([robot_view(fr[k], pos[:2], np.array([lv[0], lv[1], av[2]])), q[k], qd[k]]) for k in range(n)] + [np.array(flags, float)])
        if delay:
            vel = np.array([i for k in range(n) for i in list(range(11 * k + 2, 11 * k + 5)) + list(range(11 * k + 8, 11 * k + 11))])
            if prev is not None:
                want[vel] = .5 * want[vel] + .5 * prev[vel]
            prev = want.copy()
            m.event('delayed-observation')
        m.eq(o.shape, (nobs,), 'observation', f'{kind}: shape of the {what}')
        if noise:
            ix = [i for k in range(n) for i in (11 * k, 11 * k + 1)]
            e = (o - want)[ix]
            m.ok(np.all(np.abs(e) < 1e-2) and np.all(e != 0), 'noise', f'{kind}: observation noise {e}')
            errs.append(e)
            o = o.copy()
            o[ix] = want[ix]
            m.event('noisy-observation')
        m.close(o, want, 'observation', f'{kind}: {what}', rtol=1e-9, atol=1e-10)
    for ep in range(episodes):
        target = int(rng.randint(n))
        rec.throw = None if rng.rand() < .25 else (lambda p, ee: aim(rng, p, ee[target], kind))
        rec.spin = float(rng.uniform(-3, 3))
        prev = None
        o, _ = env.reset()
        m.event('reset')
        s = state()
        if kind != 'double':
            check_start(m, kind, sub, kw, *rec.start, s[3][0], s[4][0])
            m.close(rec.start[0][2], -.189, 'initial-puck', 'height of the puck')
            task.start(rec.start[0][:2])
        task.hit = task.bounce = False

        def flags():
            return dict(hit=[task.hit], defend=[task.hit, task.bounce], prepare=[task.hit], repel=[task.hit], double=[])[kind]
        check_obs(o, s, flags(), 'observation after reset')
        amp = float(rng.choice([0, .3, 1.]))
        b = rng.normal(size=3 * n)
        for t in range(int(rng.randint(10, 120))):
            if rng.rand() < .1:
                b = rng.normal(size=3 * n)
            a = amp * b
            rec.touch.clear()
            calls.clear()
            o, r, ab, info = env.step(a.copy())
            m.event('pb-step')
            m.eq(len(rec.touch), kw['n_intermediate_steps'], 'substeps', 'simulation steps per control step')
            if fun is not None:
                m.eq(len(calls), kw['n_intermediate_steps'], 'action-function', 'calls of the action function')
                m.ok(all(np.array_equal(x[1], a) for x in calls), 'action-function', 'action given to the action function')
            s = state()
            pos, lv, av, q, qd, ee = s
            edge = False
            for v, rims, striker in rec.touch:
                if kind == 'hit':
                    edge |= abs(np.linalg.norm(v[:2]) - .1) < 1e-9
                    new = np.linalg.norm(v[:2]) > .1
                    rims = rims & {'t_down_rim_l', 't_down_rim_r'}
                else:
                    new = striker[0]
                if new and not task.hit:
                    task.hit = True
                    m.event('hit')
                if rims and not task.bounce:
                    task.bounce = True
                    m.event('bounce')
            if edge:
                break
            check_obs(o, s, flags(), f'observation at step {t}')
            eel = [e[:2] for e in ee]
            if not near(pos[:2], lv, task, pos[2] + .189, eel):
                want = bool(task.ended(pos[:2], lv, pos[2] + .189, eel))
                m.eq(bool(ab), want, 'absorbing', f'{kind} {sub}: end of the episode, puck {pos} velocity {lv} hit {task.hit} bounce {task.bounce} ee {eel}')
                if kind != 'double':
                    v = lv if kind in ('defend', 'repel') else lv[:2]
                    m.close(r, task.reward(pos[:2], v, ee[0][:2], a, want), 'reward',
                            f'{kind} {sub}: reward, puck {pos} velocity {lv} ee {ee[0][:2]} hit {task.hit} bounce {task.bounce} absorbing {ab}', rtol=1e-7, atol=1e-8)
                m.event('scored', int(want and pos[0] > LENGTH / 2 and abs(pos[1]) < GOAL))
                m.event('conceded', int(want and pos[0] < -LENGTH / 2 and abs(pos[1]) < GOAL))
                m.event('slow-end', int(want and kind in ('prepare', 'hit') and abs(pos[0]) < .98 and abs(pos[1]) < .47))
            if kind != 'double':
                f = env.forward_kinematics(q[0])
                cum = np.cumsum(q[0])
                m.close(f, [np.cos(cum) @ [.5, .4, .4], np.sin(cum) @ [.5, .4, .4], cum[2]], 'kinematics', 'forward kinematics', rtol=1e-9, atol=1e-10)
            if ab:
                m.event('absorbing')
                break
    if len(errs) > 30:
        m.ok(stats.kstest(np.array(errs).ravel() / .001, 'norm').pvalue > 1e-9, 'noise', 'distribution of the observation noise')
    c.disconnect()


def random_starts(m, rng, engine, kind, n):
    """the initial situations cover the documented region uniformly"""
    sub = kw = None
    kw = dict(random_init=True)
    if kind == 'prepare':
        sub = kw['sub_problem'] = str(rng.choice(['side', 'bottom']))
    env = (MJ if engine == 'mj' else PB)[kind](**kw)
    P = []
    for _ in range(n):
        o, _ = env.reset()
        m.event('reset')
        P.append(o[:5] + [-1.51, 0, 0, 0, 0])
    P = np.array(P)
    rg = np.array(RANGES[sub or kind])
    m.event('random-init', n)
    y = P[:, 1]
    if kind == 'prepare':
        m.ok(stats.binomtest(int((y > 0).sum()), n, .5).pvalue > 1e-9, 'initial-distribution', 'side of the puck')
        y = abs(y)
    for d, x in enumerate((P[:, 0], y)):
        m.ok(stats.kstest((x - rg[d, 0]) / (rg[d, 1] - rg[d, 0]), 'uniform').pvalue > 1e-9, 'initial-distribution', f'{engine} {kind} {sub}: initial puck coordinate {d}')
    if kind in ('defend', 'repel'):
        sp = np.hypot(P[:, 2], P[:, 3])
        m.ok(stats.kstest((sp - 1) / 1.2, 'uniform').pvalue > 1e-9, 'initial-distribution', 'initial speed')
        m.ok(stats.kstest(np.arctan2(P[:, 3], -P[:, 2]) + .5, 'uniform').pvalue > 1e-9, 'initial-distribution', 'initial direction')
        m.ok(stats.kstest((P[:, 4] + 1) / 2, 'uniform').pvalue > 1e-9, 'initial-distribution', 'initial spin')
    if engine == 'pb':
        env.client.disconnect()


def air_noise(m, rng, engine):
    """noisy dynamics push a resting puck at random, small amounts; without noise it rests"""
    out = {}
    for noisy in (False, True):
        env = (MJ if engine == 'mj' else PB)['hit'](env_noise=noisy)
        out[noisy] = []
        for _ in range(6):
            env.reset()
            for _ in range(40):
                o = env.step(np.zeros(3))[0]
            out[noisy].append(o[2:4].copy())
        if engine == 'pb':
            env.client.disconnect()
    still, moved = np.array(out[False]), np.array(out[True])
    m.ok(np.abs(still).max() < 8e-5, 'dynamics-noise', f'{engine}: without noise the puck rests: {still.tolist()}')
    m.ok(np.abs(moved).max() > 1e-4 and len(np.unique(moved, axis=0)) == 6, 'dynamics-noise', f'{engine}: with noise the puck is pushed around: {moved.tolist()}')
    m.event('pushed', 6)
    m.seen('air', engine)


# ------------------------------------------------------------------------- ball in a cup
CUP = ['base_yaw', 'shoulder_pitch', 'shoulder_yaw', 'elbow_pitch', 'wrist_yaw', 'wrist_pitch', 'palm_yaw']


def cup(m, rng, episodes):
    rec = Rec()

    class Env(BallInACup):
        def _simulation_post_step(self):
            super()._simulation_post_step()
            rec.touch.append(1)

        def _simulation_pre_step(self):
            if rec.pull is not None:       # a force pulling the ball to a part of the robot
                d = self._data.geom(rec.pull).xpos - self._data.body('ball').xpos
                self._data.body('ball').xfrc_applied[:3] = 2 * d / (np.linalg.norm(d) + .05) + [0, 0, .5]
    rec.pull = None
    env = Env()
    first = None
    traj = None
    script = rng.normal(size=(6, 7))
    robot = [x for x in (env._model.geom(i).name for i in range(env._model.ngeom)) if x in ('cup_geom1', 'cup_geom2') or x.startswith(('wrist_', 'forearm_'))]

    def obs():
        d = env._data
        w = []
        for x in CUP:
            w += [d.joint(f'wam/{x}_joint').qpos[0], d.joint(f'wam/{x}_joint').qvel[0]]
        vel = np.zeros(6)
        mujoco.mj_objectVelocity(env._model, d, mujoco.mjtObj.mjOBJ_BODY, env._model.body('ball').id, vel, 0)
        return np.concatenate([w, d.body('ball').xpos, vel])
    for ep in range(episodes):
        o, _ = env.reset()
        m.event('reset')
        m.close(o, obs(), 'cup-observation', 'observation after reset', rtol=1e-9, atol=1e-10)
        if first is None:
            first = o.copy()
            m.ok(np.max(np.abs(o[0:14:2] - [0.0, 0.58760536, 0.0, 1.36004913, 0.0, -0.32072943, -1.57])) < .05, 'cup-initial', 'initial joint positions')
        m.close(o, first, 'cup-reset', 'every episode starts from the same situation', rtol=1e-7, atol=1e-8)
        sid = env._model.site('cup_goal_final').id
        keep = env._model.site_pos[sid].copy()
        scripted = ep % 3 != 2
        rec.pull = None if scripted else robot[int(rng.randint(len(robot)))]
        if ep % 3 == 1:       # goal near the ball
            b = env._data.body(int(env._model.site_bodyid[sid]))
            R = b.xmat.reshape(3, 3)
            off = rng.normal(size=3)
            off *= rng.uniform(.002, .055) / np.linalg.norm(off)
            env._model.site_pos[sid] = R.T @ (env._data.body('ball').xpos + off - b.xpos)
        got = []
        for t in range(6 if scripted else 150):
            a = script[t] * 2 if scripted else rng.normal(size=7) * np.array([30, 100, 30, 60, 5, 5, 2])
            rec.touch.clear()
            o, r, ab, info = env.step(a)
            m.eq(len(rec.touch), 4, 'cup-step', 'simulation steps per control step')
            m.close(o, obs(), 'cup-observation', 'observation', rtol=1e-9, atol=1e-10)
            d = env._data
            dist = np.linalg.norm(d.site('cup_goal_final').xpos - d.body('ball').xpos)
            touch = any('ball_geom' in (x, y) and ((x if y == 'ball_geom' else y) in robot) for x, y in
                        ((env._model.geom(int(g1)).name, env._model.geom(int(g2)).name) for g1, g2 in zip(d.contact.geom1[:d.ncon], d.contact.geom2[:d.ncon])))
            m.event('cup-goal', int(dist < .05))
            m.event('cup-contact', int(touch))
            if abs(dist - .05) > 1e-9:
                m.eq(float(r), float(dist < .05), 'cup-reward', f'reward at distance {dist}')
                m.eq(bool(ab), bool(dist < .05 or touch), 'cup-absorbing', f'end of the episode at distance {dist}, contact {touch}')
            got.append(o)
        env._model.site_pos[sid] = keep
        if scripted:
            got = np.array(got)
            if traj is None:
                traj = got
            m.close(got, traj, 'cup-reset', 'the same actions give the same episode after every reset', rtol=1e-6, atol=1e-7)
    m.seen('cup', episodes)


def cases(tier, rng):
    k = 1 if tier == 'quick' else 12
    for kind in MJ:
        for noise, dyn in ((False, False), (False, False), (True, False), (False, True)):
            for _ in range(k):
                yield 'mujoco_task', dict(kind=kind, episodes=dict(prepare=14, double=20).get(kind, 8), noise=noise, dynamics_noise=dyn)
    for kind in PB:
        for kw in ({}, {}, dict(noise=True), dict(delay=True), dict(dynamics_noise=True), dict(boundary=True), dict(noise=True, delay=True, boundary=True)):
            for _ in range(k):
                yield 'bullet_task', dict(kind=kind, episodes=8, **kw)
    for engine in ('mj', 'pb'):
        for kind in ('hit', 'defend', 'prepare', 'repel'):
            for _ in range(1 if tier == 'quick' else 4):
                yield 'random_starts', dict(engine=engine, kind=kind, n=60 if tier == 'quick' else 400)
        yield 'air_noise', dict(engine=engine)
    for _ in range(2 if tier == 'quick' else 8):
        yield 'cup', dict(episodes=12 if tier == 'quick' else 20)
