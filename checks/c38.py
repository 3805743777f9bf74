"""C38: PyBullet environments report and drive the simulation they wrap."""
import os
import tempfile

import numpy as np
import pybullet
import pybullet_data
from pybullet_utils.bullet_client import BulletClient

from mushroom_rl.environments.pybullet import PyBullet
from mushroom_rl.utils.pybullet import PyBulletObservationType as O

PROPERTY = 'C38'
RULE = ('every environment is built over generated URDF robots (revolute, continuous, prismatic and fixed joints, several robots, free bodies and a '
        'ground plane) and driven next to an independent raw PyBullet client on which the same models are loaded; at every step the monitor compares '
        'the observation with the named quantities of the raw client, the control applied, contact flags, bounds, indices and the hook sequence')
NEED = {'env-step': 300, 'observation-entry': 3000, 'hook': 500, 'contact-query': 200, 'contact-true': 20, 'reset': 40, 'joint-control': 300, 'self-contact': 5}
CASE_LIMIT = 120
MODES = dict(position=pybullet.POSITION_CONTROL, velocity=pybullet.VELOCITY_CONTROL, torque=pybullet.TORQUE_CONTROL)


def robot(rng, name, n, selfcol=False):
    """URDF of a chain of n links; returns (text, link names, movable joints)."""
    links, joints = [], []
    out = [f'<robot name="{name}"><link name="{name}_base"><inertial><mass value="1"/><inertia ixx="0.1" iyy="0.1" izz="0.1" ixy="0" ixz="0" iyz="0"/></inertial>'
           f'<collision><geometry><box size="0.1 0.1 0.1"/></geometry></collision></link>']
    parent = f'{name}_base'
    for i in range(n):
        l, j = f'{name}/l{i}', f'{name}/j{i}'
        jt = str(rng.choice(['revolute', 'revolute', 'prismatic', 'continuous', 'fixed']))
        out.append(f'<link name="{l}"><inertial><origin xyz="0.05 0.01 0"/><mass value="{rng.uniform(.2, 1):.3f}"/><inertia ixx="0.01" iyy="0.01" izz="0.01" ixy="0" ixz="0" iyz="0"/></inertial>'
                   f'<collision><origin xyz="0.05 0 0"/><geometry><sphere radius="{.09 if selfcol else .04}"/></geometry></collision></link>')
        ax = ['1 0 0', '0 1 0', '0 0 1'][int(rng.randint(3))]
        lim = ''
        if jt in ('revolute', 'prismatic'):
            s = 1. if jt == 'revolute' else .1
            lim = f'<limit lower="{-s * rng.uniform(.3, 2):.3f}" upper="{s * rng.uniform(.3, 2):.3f}" effort="{rng.uniform(1, 20):.3f}" velocity="{rng.uniform(1, 8):.3f}"/>'
        elif jt == 'continuous':
            lim = f'<limit effort="{rng.uniform(1, 20):.3f}" velocity="{rng.uniform(1, 8):.3f}"/>'
        out.append(f'<joint name="{j}" type="{jt}"><parent link="{parent}"/><child link="{l}"/><origin xyz="{.12 if not selfcol else .07} 0 0.0"/><axis xyz="{ax}"/>{lim}<dynamics damping="0.2"/></joint>')
        links.append(l)
        if jt != 'fixed':
            joints.append((j, jt))
        parent = l
    out.append('</robot>')
    return ''.join(out), links, joints


class Raw:
    """Independent client over the same models."""

    def __init__(self, files, timestep, enforce):
        c = self.c = BulletClient(connection_mode=pybullet.DIRECT)
        c.setTimeStep(timestep)
        c.setGravity(0, 0, -9.81)
        c.setAdditionalSearchPath(pybullet_data.getDataPath())
        self.models, self.links, self.joints = {}, {}, {}
        for f, kw in files.items():
            i = c.loadURDF(f, **kw)
            for j in range(c.getNumJoints(i)):
                c.setJointMotorControl2(i, j, pybullet.POSITION_CONTROL, force=0)
            self.models[c.getBodyInfo(i)[1].decode()] = i
        for i in self.models.values():
            for j in range(c.getNumJoints(i)):
                d = c.getJointInfo(i, j)
                self.links[d[12].decode()] = (i, j)
                if d[2] != pybullet.JOINT_FIXED:
                    self.joints[d[1].decode()] = (i, j, d)
                if enforce:
                    c.changeDynamics(i, j, maxJointVelocity=d[11])
        self.init = None

    def mark(self):
        self.init = self.c.saveState()

    def reset(self):
        self.c.restoreState(self.init)

    def ids(self, n):
        return self.links[n] if n in self.links else (self.models[n], -1)

    def contact(self, name):
        a, b = [self.ids(n) for n in name.split('<->')]
        for p in self.c.getContactPoints():
            x, y = (p[1], p[3]), (p[2], p[4])
            if (x, y) in ((a, b), (b, a)):
                return True
        return False

    def read(self, n, t):
        c = self.c
        if t in (O.BODY_POS, O.BODY_LIN_VEL, O.BODY_ANG_VEL):
            i = self.models[n]
            p, q = c.getBasePositionAndOrientation(i)
            v, w = c.getBaseVelocity(i)
            return list(p) + list(q) if t == O.BODY_POS else list(v if t == O.BODY_LIN_VEL else w)
        if t in (O.LINK_POS, O.LINK_LIN_VEL, O.LINK_ANG_VEL):
            i, j = self.links[n]
            s = c.getLinkState(i, j, computeLinkVelocity=1)
            return list(s[0]) + list(s[1]) if t == O.LINK_POS else list(s[6] if t == O.LINK_LIN_VEL else s[7])
        if t == O.CONTACT_FLAG:
            return [float(self.contact(n))]
        i, j, _ = self.joints[n]
        s = c.getJointState(i, j)
        return [s[0] if t == O.JOINT_POS else s[1]]

    def bounds(self, n, t):
        if t == O.CONTACT_FLAG:
            return [0.], [1.]
        if t == O.JOINT_POS:
            d = self.joints[n][2]
            return ([d[8]], [d[9]]) if d[8] <= d[9] else ([-np.inf], [np.inf])
        if t == O.JOINT_VEL:
            d = self.joints[n][2]
            return [-d[11]], [d[11]]
        k = 7 if t in (O.BODY_POS, O.LINK_POS) else 3
        return [-np.inf] * k, [np.inf] * k

    def control(self, n, mode, u):
        i, j, d = self.joints[n]
        if mode == 'position':
            self.c.setJointMotorControl2(i, j, MODES[mode], targetPosition=u, maxVelocity=d[11], force=d[10])
        elif mode == 'velocity':
            self.c.setJointMotorControl2(i, j, MODES[mode], targetVelocity=u, maxVelocity=d[11], force=d[10])
        else:
            self.c.setJointMotorControl2(i, j, MODES[mode], force=u)

    def close(self):
        self.c.disconnect()


HOOKS = ['_preprocess_action', '_step_init', '_compute_action', '_simulation_pre_step', '_simulation_post_step', '_step_finalize', '_create_observation']


def nudge(client, raw):
    """a change of the simulation made by the user after a simulation step"""
    for n in sorted(raw.joints)[:2]:
        i, j, _ = raw.joints[n]
        p, v = client.getJointState(i, j)[:2]
        client.resetJointState(i, j, p, .97 * v + .01)


def make_class(hooks, log):
    class Env(PyBullet):
        def setup(self, state):
            log.ev.append(('setup', None if state is None else np.array(state)))
            for n, (p, v) in log.joints.items():
                i, j, _ = log.raw.joints[n]
                self.client.resetJointState(i, j, p, v)

        def is_absorbing(self, state):
            log.ev.append(('absorbing', state.copy()))
            return bool(abs(state[0]) > log.thr)

        def reward(self, state, action, next_state, absorbing):
            log.ev.append(('reward', state.copy(), np.array(action), next_state.copy(), absorbing))
            return float(np.sum(state) - 2 * np.sum(next_state) + .5 * np.sum(action) - 3 * absorbing)

    def hook(f):
        if f.__name__ in hooks:
            setattr(Env, f.__name__, f)

    @hook
    def _preprocess_action(self, action):
        log.ev.append(('pre', np.array(action)))
        return .8 * action + .01

    @hook
    def _step_init(self, state, action):
        log.ev.append(('init', state.copy(), np.array(action)))

    @hook
    def _compute_action(self, state, action):
        log.ev.append(('compute', state.copy(), np.array(action)))
        return action + .02 * np.tanh(state[0])

    @hook
    def _simulation_pre_step(self):
        log.ev.append(('sim-pre',))
        i = list(log.raw.models.values())[0]
        self.client.applyExternalForce(i, -1, log.force, [0, 0, 0], pybullet.LINK_FRAME)

    @hook
    def _simulation_post_step(self):
        log.ev.append(('sim-post',))
        nudge(self.client, log.raw)

    @hook
    def _step_finalize(self):
        log.ev.append(('finalize',))

    @hook
    def _create_observation(self, state):
        return np.append(-2. * state, 1.)
    return Env


class Log:
    pass


def run(m, rng, hooks, steps, selfcol):
    hooks = set(hooks)
    with tempfile.TemporaryDirectory() as tmp:
        files, allj, alll, models = {}, [], [], []
        nrob = 1 if selfcol else int(rng.randint(1, 3))
        for r in range(nrob):
            while True:
                txt, links, joints = robot(rng, f'rob{r}', int(rng.randint(3 if selfcol else 1, 5)), selfcol)
                if joints:
                    break
            p = os.path.join(tmp, f'r{r}.urdf')
            open(p, 'w').write(txt)
            files[p] = dict(basePosition=[.4 * r, .1 * r, .3], useFixedBase=True)
            if selfcol:
                files[p]['flags'] = pybullet.URDF_USE_SELF_COLLISION | pybullet.URDF_USE_SELF_COLLISION_INCLUDE_PARENT
            allj += joints
            alll += links
            models.append(f'rob{r}')
        nfree = int(rng.randint(0, 3))
        for k in range(nfree):
            p = os.path.join(tmp, f'f{k}.urdf')
            open(p, 'w').write(f'<robot name="ball{k}"><link name="ball{k}_link"><inertial><mass value="0.3"/><inertia ixx="0.001" iyy="0.001" izz="0.001" ixy="0" ixz="0" iyz="0"/></inertial>'
                               f'<collision><geometry><sphere radius="0.05"/></geometry></collision></link></robot>')
            files[p] = dict(basePosition=[.2 + .15 * k, .05 * k, .12 + .03 * k])
            models.append(f'ball{k}')
        if rng.rand() < .7:
            p = os.path.join(tmp, 'ground.urdf')
            open(p, 'w').write('<robot name="ground"><link name="ground_link"><inertial><mass value="0"/><inertia ixx="0" iyy="0" izz="0" ixy="0" ixz="0" iyz="0"/></inertial><collision><origin xyz="0 0 -0.05"/><geometry><box size="10 10 0.1"/></geometry></collision></link></robot>')
            files[p] = dict(useFixedBase=True)
            models.append('ground')
        files = {f: files[f] for f in [list(files)[i] for i in rng.permutation(len(files))]}
        ts, n_inter, enforce = float(rng.choice([1 / 240, 1 / 500, 1 / 120])), int(rng.randint(1, 4)), bool(rng.rand() < .3)
        raw = Raw(files, ts, enforce)
        # --- specifications
        cand = [(n, t) for n in models for t in (O.BODY_POS, O.BODY_LIN_VEL, O.BODY_ANG_VEL)] + [(n, t) for n in alll for t in (O.LINK_POS, O.LINK_LIN_VEL, O.LINK_ANG_VEL)] \
            + [(n, t) for n, _ in allj for t in (O.JOINT_POS, O.JOINT_VEL)]
        ends = models + alll
        pairs = []
        for _ in range(5):
            a, b = rng.choice(len(ends), 2, replace=False)
            a, b = ends[a], ends[b]
            if raw.ids(a)[0] != raw.ids(b)[0] or selfcol:
                pairs.append((f'{a}<->{b}', O.CONTACT_FLAG))
        if selfcol:
            for a in alll:
                for b in alll:
                    if a < b and rng.rand() < .6:
                        pairs.append((f'{a}<->{b}' if rng.rand() < .5 else f'{b}<->{a}', O.CONTACT_FLAG))
        elif 'ground' in models:
            pairs += [(f'ball{k}<->ground' if rng.rand() < .5 else f'ground<->ball{k}', O.CONTACT_FLAG) for k in range(nfree)]
        pairs = list(dict.fromkeys(pairs))
        ospec = [cand[i] for i in rng.permutation(len(cand))[:int(rng.randint(1, min(len(cand), 9) + 1))]]
        ospec += [p for p in pairs if rng.rand() < .8]
        ospec = [ospec[i] for i in rng.permutation(len(ospec))]
        act = [allj[i] for i in rng.permutation(len(allj))[:int(rng.randint(1, len(allj) + 1))]]
        aspec = [(n, str(rng.choice(['position', 'velocity', 'torque']))) for n, _ in act]
        log = Log()
        log.ev, log.thr, log.raw, log.force, log.joints = [], float(rng.uniform(.01, 1)), raw, rng.normal(size=3).tolist(), {}
        cls = make_class(hooks, log)
        env = cls(files, [(n, MODES[k]) for n, k in aspec], list(ospec), .95, 30, timestep=ts, n_intermediate_steps=n_inter, enforce_joint_velocity_limits=enforce)
        raw.mark()
    m.seen(nrob, nfree, len(allj), len(ospec), tuple(k for _, k in aspec), n_inter, enforce, tuple(sorted(hooks)), selfcol)
    # --- spaces, indices, limits
    low, high, where = [], [], {}
    for n, t in ospec:
        a, b = raw.bounds(n, t)
        where[n, t] = list(range(len(low), len(low) + len(a)))
        low, high = low + a, high + b
    m.eq(env.info.observation_space.low.tolist(), low, 'observation-bounds', f'lower bounds for {ospec}')
    m.eq(env.info.observation_space.high.tolist(), high, 'observation-bounds', f'upper bounds for {ospec}')
    al, ah = [], []
    for n, k in aspec:
        d = raw.joints[n][2]
        un = d[8] > d[9]
        lo, hi = dict(position=(-np.inf, np.inf) if un else (d[8], d[9]), velocity=(-d[11], d[11]), torque=(-d[10], d[10]))[k]
        al.append(lo), ah.append(hi)
    m.eq(env.info.action_space.low.tolist(), al, 'action-bounds', f'lower action bounds {aspec}')
    m.eq(env.info.action_space.high.tolist(), ah, 'action-bounds', f'upper action bounds {aspec}')
    m.close(env.info.dt, ts * n_inter, 'dt', 'control period')
    m.close(env.dt, ts * n_inter, 'dt', 'control period')
    m.eq((env.info.gamma, env.info.horizon), (.95, 30), 'info', 'gamma and horizon')
    for (n, t), ix in where.items():
        m.eq(list(env.get_sim_state_index(n, t)), ix, 'index', f'indices of {n} {t}')
    jp = [where[n, t][0] for n, t in ospec if t == O.JOINT_POS]
    jv = [where[n, t][0] for n, t in ospec if t == O.JOINT_VEL]
    lim = env.joints.limits()
    m.eq(np.asarray(lim[0]).tolist(), [low[i] for i in jp], 'joint-limits', 'lower joint limits')
    m.eq(np.asarray(lim[1]).tolist(), [high[i] for i in jp], 'joint-limits', 'upper joint limits')
    m.eq(np.asarray(env.joints.velocity_limits()).tolist(), [high[i] for i in jv], 'joint-limits', 'joint velocity limits')

    def state():
        return np.concatenate([np.array(raw.read(n, t), dtype=float) for n, t in ospec])

    def out(s):
        return np.append(-2. * s, 1.) if '_create_observation' in hooks else s
    done = 0
    while done < steps:
        log.ev.clear()
        log.joints = {n: (float(rng.normal() * .1), float(rng.normal() * .2)) for n, _ in allj if rng.rand() < .5}
        given = None if rng.rand() < .5 else rng.normal(size=3)
        o, info = env.reset(given)
        raw.reset()
        for n, (p, v) in log.joints.items():
            i, j, _ = raw.joints[n]
            raw.c.resetJointState(i, j, p, v)
        s = state()
        m.event('reset')
        m.eq(len(log.ev), 1, 'setup', 'setup is called once per reset')
        m.ok((log.ev[0][1] is None) == (given is None) and (given is None or np.array_equal(given, log.ev[0][1])), 'setup', 'setup receives the state given to reset')
        m.close(o, out(s), 'initial-observation', f'observation after reset, spec {ospec}', rtol=1e-9, atol=1e-10)
        m.event('observation-entry', len(s))
        held = [(o, o.copy())]
        for _ in range(int(rng.randint(3, 12))):
            lo = np.where(np.isfinite(al), al, -1.)
            hi = np.where(np.isfinite(ah), ah, 1.)
            a = rng.uniform(lo, hi) * .7
            ka = a.copy()
            log.ev.clear()
            o, r, ab, info = env.step(a)
            done += 1
            m.event('env-step')
            ev, u, cur = [], ka.copy(), s
            if '_preprocess_action' in hooks:
                ev.append(('pre', u.copy()))
                u = .8 * u + .01
            if '_step_init' in hooks:
                ev.append(('init', s.copy(), u.copy()))
            for _ in range(n_inter):
                c = u
                if '_compute_action' in hooks:
                    ev.append(('compute', cur.copy(), u.copy()))
                    c = u + .02 * np.tanh(cur[0])
                for (n, k), x in zip(aspec, c):
                    raw.control(n, k, float(x))
                    m.event('joint-control')
                if '_simulation_pre_step' in hooks:
                    ev.append(('sim-pre',))
                    raw.c.applyExternalForce(list(raw.models.values())[0], -1, log.force, [0, 0, 0], pybullet.LINK_FRAME)
                raw.c.stepSimulation()
                if '_simulation_post_step' in hooks:
                    ev.append(('sim-post',))
                    nudge(raw.c, raw)
                cur = state()
            if '_step_finalize' in hooks:
                ev.append(('finalize',))
            wa = bool(abs(cur[0]) > log.thr)
            ev += [('absorbing', cur.copy()), ('reward', s.copy(), u.copy(), cur.copy(), wa)]
            m.close(o, out(cur), 'observation', f'observation after a step, spec {ospec}, control {aspec}', rtol=1e-7, atol=1e-8)
            m.event('observation-entry', len(cur))
            m.close(r, float(np.sum(s) - 2 * np.sum(cur) + .5 * np.sum(u) - 3 * wa), 'reward', 'reward', rtol=1e-6, atol=1e-6)
            m.ok(abs(abs(cur[0]) - log.thr) < 1e-7 or bool(ab) == wa, 'absorbing', 'absorbing flag')
            m.ok(np.array_equal(a, ka), 'step-changes-action', 'step changed the action')
            m.eq([e[0] for e in log.ev], [e[0] for e in ev], 'hook-sequence', f'hooks {sorted(hooks)}')
            for g, w in zip(log.ev, ev):
                m.event('hook')
                for i, (x, y) in enumerate(zip(g[1:], w[1:])):
                    m.close(np.asarray(x, float), np.asarray(y, float), f'hook-argument-{g[0]}', f'argument {i} of hook {g[0]}', rtol=1e-6, atol=1e-7)
            full = cur
            for (n, t), ix in where.items():
                m.eq(env.get_sim_state(full, n, t).tolist(), full[ix].tolist(), 'slice', f'entries of {n} {t}')
                if t == O.CONTACT_FLAG:
                    m.event('contact-query')
                    m.event('contact-true', int(full[ix[0]] > 0))
                    x, y = n.split('<->')
                    m.event('self-contact', int(full[ix[0]] > 0 and raw.ids(x)[0] == raw.ids(y)[0]))
            m.eq(env.joints.positions(full).tolist(), full[jp].tolist(), 'slice', 'joint positions')
            m.eq(env.joints.velocities(full).tolist(), full[jv].tolist(), 'slice', 'joint velocities')
            m.ok(all(np.array_equal(x, c) for x, c in held), 'observation-overwritten', 'an earlier observation was changed')
            held.append((o, o.copy()))
            s = cur
    env.stop()
    env.client.disconnect()
    raw.close()


def cases(tier, rng):
    for i in range(400 if tier == 'quick' else 6000):
        hooks = [[], list(HOOKS)][i % 4] if i % 4 < 2 else [h for h in HOOKS if rng.rand() < .5]
        yield 'run', dict(hooks=hooks, steps=20, selfcol=bool(i % 5 == 3))
