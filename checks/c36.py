"""C36: MuJoCo environments report and drive the simulation they wrap."""
import os
import tempfile

import numpy as np
import mujoco
from dm_control import mjcf

from mushroom_rl.core import Agent, Core
from mushroom_rl.environments.mujoco import MuJoCo, MultiMuJoCo
from mushroom_rl.policy import Policy
from mushroom_rl.utils.mujoco import ObservationType as O, forward_kinematics

PROPERTY = 'C36'
RULE = ('every environment is built over a generated MuJoCo model (chains of limited and unlimited hinge and slide joints, free bodies, sites, '
        'contacts, actuators in shuffled order) and driven next to an independent raw simulation of the same model; at every step the monitor '
        'compares the observation with the named simulator quantities read from the raw twin, the simulated time, spaces, collision flags, '
        'read and written data and the sequence and arguments of the user hooks')
NEED = {'env-step': 200, 'observation-entry': 2000, 'hook': 500, 'collision-query': 100, 'collision-true': 10, 'reset-from-observation': 10,
        'removed-entry': 10, 'multi-reset': 40, 'kinematics': 20}
CASE_LIMIT = 120
TYPES = [O.BODY_POS, O.BODY_ROT, O.BODY_VEL, O.BODY_VEL_WORLD, O.JOINT_POS, O.JOINT_VEL, O.SITE_POS, O.SITE_ROT]


# ---------------------------------------------------------------- models
def model_spec(rng, scale=1., extra_geom=False, plan=None):
    """Random model: returns (xml, names). plan fixes the structure so that variants differ only in sizes and ids."""
    p = plan or dict(chains=[[str(rng.choice(['hinge', 'slide'])) for _ in range(int(rng.randint(1, 4)))] for _ in range(int(rng.randint(1, 3)))],
                     limited=[[bool(rng.rand() < .5) for _ in range(4)] for _ in range(3)],
                     ranges=rng.uniform(.2, 1.5, (3, 4)).tolist(), free=int(rng.randint(0, 3)), floor=bool(rng.rand() < .7),
                     timestep=float(rng.choice([.001, .002, .004])), act=float(rng.rand()), axis=rng.randint(0, 3, (3, 4)).tolist(),
                     lims=rng.uniform(.3, 2, (3, 4)).tolist(), limact=[[bool(rng.rand() < .6) for _ in range(4)] for _ in range(3)],
                     order=float(rng.rand()))
    bodies, joints, frees, sites, geoms, acts = [], [], [], [], [], []
    out = []
    if extra_geom:
        out.append(f'<geom name="extra" type="sphere" size="0.01" pos="5 5 5"/>')
        geoms.append('extra')
    if p['floor']:
        out.append('<geom name="floor" type="plane" size="5 5 .1"/>')
        geoms.append('floor')
    for c, chain in enumerate(p['chains']):
        close = ''
        for j, jt in enumerate(chain):
            b, jn = f'b{c}{j}', f'j{c}{j}'
            axis = [0, 0, 0]
            axis[p['axis'][c][j]] = 1
            lim = f'limited="true" range="{-p["ranges"][c][j]:.4f} {p["ranges"][c][j] * 1.3:.4f}"' if p['limited'][c][j] else 'limited="false"'
            pos = f'{.6 * c} 0 {.5 * scale}' if j == 0 else f'{.15 * scale} .02 0'
            out.append(f'<body name="{b}" pos="{pos}"><joint name="{jn}" type="{jt}" axis="{axis[0]} {axis[1]} {axis[2]}" damping="0.3" {lim}/>'
                       f'<geom name="g{b}" type="capsule" fromto="0 0 0 {.12 * scale} 0 0" size="0.03" density="{800 * scale}"/>'
                       f'<site name="s{b}" pos="{.1 * scale} .01 .02" euler="0.3 0.2 {.1 * (j + 1)}"/>')
            close += '</body>'
            bodies.append(b), joints.append(jn), sites.append('s' + b), geoms.append('g' + b)
            if (p['act'] * 7.3 + c * .37 + j * .61) % 1 < .8 or not acts:
                r = p['lims'][c][j]
                acts.append((f'a{c}{j}', f'<motor name="a{c}{j}" joint="{jn}" gear="{.5 + .25 * j}" '
                             + (f'ctrllimited="true" ctrlrange="{-r:.4f} {r * .8:.4f}"' if p['limact'][c][j] else 'ctrllimited="false"') + '/>'))
        out.append(close)
    for f in range(p['free']):
        out.append(f'<body name="f{f}" pos="{.3 * f} {.1 * scale} {.06 + .1 * f}"><freejoint name="jf{f}"/>'
                   f'<geom name="gf{f}" type="{["sphere", "box"][f % 2]}" size="{"0.05" if f % 2 == 0 else "0.04 0.05 0.03"}" density="500"/>'
                   f'<site name="sf{f}" pos="0.01 0.02 0.03"/></body>')
        bodies.append(f'f{f}'), frees.append(f'jf{f}'), sites.append(f'sf{f}'), geoms.append(f'gf{f}')
    np.random.default_rng(int(p['order'] * 1e6)).shuffle(acts)
    xml = (f'<mujoco model="m"><compiler angle="radian" autolimits="false"/><option timestep="{p["timestep"]}"/><worldbody>' + ''.join(out)
           + '</worldbody><actuator>' + ''.join(a[1] for a in acts) + '</actuator></mujoco>')
    return xml, dict(bodies=bodies, joints=joints, frees=frees, sites=sites, geoms=geoms, acts=[a[0] for a in acts], plan=p)


class Twin:
    """Raw simulation of the same model."""

    def __init__(self, xml, timestep=None):
        self.m = mujoco.MjModel.from_xml_string(xml)
        if timestep is not None:
            self.m.opt.timestep = timestep
        self.d = mujoco.MjData(self.m)

    def id(self, kind, name):
        i = mujoco.mj_name2id(self.m, kind, name)
        assert i >= 0, name
        return i

    def fresh(self):
        """Data with the quantities derived from the present joint state."""
        d = mujoco.MjData(self.m)
        d.qpos[:], d.qvel[:] = self.d.qpos, self.d.qvel
        mujoco.mj_forward(self.m, d)
        return d

    def joint(self, name, what):
        i = self.id(mujoco.mjtObj.mjOBJ_JOINT, name)
        if what == 'pos':
            a = self.m.jnt_qposadr[i]
            return a, a + (7 if self.m.jnt_type[i] == mujoco.mjtJoint.mjJNT_FREE else 1)
        a = self.m.jnt_dofadr[i]
        return a, a + (6 if self.m.jnt_type[i] == mujoco.mjtJoint.mjJNT_FREE else 1)

    def read(self, name, ot, d=None):
        d = self.d if d is None else d
        if ot in (O.JOINT_POS, O.JOINT_VEL):
            a, b = self.joint(name, 'pos' if ot == O.JOINT_POS else 'vel')
            return (d.qpos if ot == O.JOINT_POS else d.qvel)[a:b].copy()
        if ot in (O.SITE_POS, O.SITE_ROT):
            i = self.id(mujoco.mjtObj.mjOBJ_SITE, name)
            return (d.site_xpos if ot == O.SITE_POS else d.site_xmat)[i].copy()
        i = self.id(mujoco.mjtObj.mjOBJ_BODY, name)
        if ot == O.BODY_POS:
            return d.xpos[i].copy()
        if ot == O.BODY_ROT:
            return d.xquat[i].copy()
        v = np.zeros(6)
        mujoco.mj_objectVelocity(self.m, d, mujoco.mjtObj.mjOBJ_XBODY, i, v, int(ot == O.BODY_VEL))
        return v

    def collide(self, g1, g2, d=None):
        d = self.d if d is None else d
        a = {self.id(mujoco.mjtObj.mjOBJ_GEOM, g) for g in g1}
        b = {self.id(mujoco.mjtObj.mjOBJ_GEOM, g) for g in g2}
        out = []
        for k in range(d.ncon):
            x, y = int(d.contact[k].geom1), int(d.contact[k].geom2)
            if (x in a and y in b) or (x in b and y in a):
                out.append(k)
        return out


def spec(rng, n, k=None):
    """Random observation specification over the names of a model, in random order."""
    cand = [(nm, t) for nm in n['bodies'] for t in TYPES[:4]] + [(nm, t) for nm in n['joints'] + n['frees'] for t in TYPES[4:6]] \
        + [(nm, t) for nm in n['sites'] for t in TYPES[6:]]
    k = int(rng.randint(1, min(len(cand), 9) + 1)) if k is None else k
    pick = [cand[i] for i in rng.permutation(len(cand))[:k]]
    return [(f'k{i}_{nm}', nm, t) for i, (nm, t) in enumerate(pick)]


class Log:
    pass


def make_class(base, hooks, log, rng):
    """Environment over the public hooks; hooks = set of overridden names."""
    class Env(base):
        def is_absorbing(self, obs):
            log.ev.append(('absorbing', obs.copy()))
            return bool(abs(obs[0]) > log.thr)

        def reward(self, obs, action, next_obs, absorbing):
            log.ev.append(('reward', obs.copy(), np.array(action), next_obs.copy(), absorbing))
            return float(np.sum(obs) - 2 * np.sum(next_obs) + .5 * np.sum(action) - 3 * absorbing)

    def hook(name):
        def deco(f):
            if name in hooks:
                setattr(Env, name, f)
            return f
        return deco

    @hook('_preprocess_action')
    def _(self, action):
        log.ev.append(('pre', np.array(action)))
        return 1.7 * action + .1

    @hook('_step_init')
    def _(self, obs, action):
        log.ev.append(('init', obs.copy(), np.array(action)))

    @hook('_compute_action')
    def _(self, obs, action):
        log.ev.append(('compute', obs.copy(), np.array(action)))
        return action + .05 * np.tanh(obs[0])

    @hook('_simulation_pre_step')
    def _(self):
        log.ev.append(('sim-pre', self._data.time))
        self._data.xfrc_applied[1, :3] = log.force

    @hook('_simulation_post_step')
    def _(self):
        log.ev.append(('sim-post', self._data.time))
        self._data.qvel[:] = .97 * self._data.qvel + .002

    @hook('_step_finalize')
    def _(self):
        log.ev.append(('finalize', self._data.time))

    @hook('_create_observation')
    def _(self, obs):
        return np.append(obs, [self._data.time, 2 * obs[-1]])

    @hook('_modify_observation')
    def _(self, obs):
        return -2 * obs

    @hook('_create_info_dictionary')
    def _(self, obs):
        return dict(first=float(obs[0]), total=float(np.sum(obs)))

    return Env


HOOKS = ['_preprocess_action', '_step_init', '_compute_action', '_simulation_pre_step', '_simulation_post_step', '_step_finalize',
         '_create_observation', '_modify_observation', '_create_info_dictionary']


class Ref:
    """Expected behaviour of an environment over the raw twin."""

    def __init__(self, twin, ospec, hooks, omit, acts, n_sub, n_inter, log):
        self.t, self.ospec, self.hooks, self.omit, self.log = twin, ospec, hooks, omit, log
        self.ai = [twin.id(mujoco.mjtObj.mjOBJ_ACTUATOR, a) for a in acts] if acts else list(range(twin.m.nu))
        self.n_sub, self.n_inter = n_sub, n_inter
        self.obs = None

    def raw(self, d=None):
        v = np.concatenate([np.delete(self.t.read(nm, ot, d), self.omit.get(k, [])) for k, nm, ot in self.ospec])
        if '_create_observation' in self.hooks:
            v = np.append(v, [self.t.d.time, 2 * v[-1]])
        return v

    def out(self, v):
        return -2 * v if '_modify_observation' in self.hooks else v

    def reset(self):
        self.obs = self.raw(self.t.fresh())
        return self.out(self.obs)

    def step(self, action):
        """Returns (obs, reward, absorbing, info, events)."""
        ev, h, t = [], self.hooks, self.t
        a = np.array(action, dtype=float)
        if '_preprocess_action' in h:
            ev.append(('pre', a.copy()))
            a = 1.7 * a + .1
        if '_step_init' in h:
            ev.append(('init', self.obs.copy(), a.copy()))
        cur = self.obs
        for i in range(self.n_inter):
            if '_compute_action' in h:
                ev.append(('compute', cur.copy(), a.copy()))
                t.d.ctrl[self.ai] = a + .05 * np.tanh(cur[0])
            else:
                t.d.ctrl[self.ai] = a
            if '_simulation_pre_step' in h:
                ev.append(('sim-pre', t.d.time))
                t.d.xfrc_applied[1, :3] = self.log.force
            for _ in range(self.n_sub):
                mujoco.mj_step(t.m, t.d)
            if '_simulation_post_step' in h:
                ev.append(('sim-post', t.d.time))
                t.d.qvel[:] = .97 * t.d.qvel + .002
            cur = self.raw()
        if '_step_finalize' in h:
            ev.append(('finalize', t.d.time))
        ab = bool(abs(cur[0]) > self.log.thr)
        ev.append(('absorbing', cur.copy()))
        ev.append(('reward', self.obs.copy(), a.copy(), cur.copy(), ab))
        r = float(np.sum(self.obs) - 2 * np.sum(cur) + .5 * np.sum(a) - 3 * ab)
        info = dict(first=float(cur[0]), total=float(np.sum(cur))) if '_create_info_dictionary' in h else {}
        self.obs = cur
        return self.out(cur), r, ab, info, ev


def match_events(m, got, want, tag, optional=()):
    m.eq([e[0] for e in got], [e[0] for e in want], f'hook-sequence', f'{tag}: hooks were called in another order or number')
    if [e[0] for e in got] != [e[0] for e in want]:
        return
    for g, w in zip(got, want):
        m.event('hook')
        for k, (x, y) in enumerate(zip(g[1:], w[1:])):
            m.close(np.asarray(x, float), np.asarray(y, float), f'hook-argument-{g[0]}', f'{tag}: argument {k} of hook {g[0]}', rtol=1e-6, atol=1e-7)


def write_xml(tmp, xml, name='m.xml'):
    p = os.path.join(tmp, name)
    with open(p, 'w') as f:
        f.write(xml)
    return p


def safe_action(rng, box, scale=.5):
    lo, hi = np.where(np.isfinite(box.low), box.low, -1), np.where(np.isfinite(box.high), box.high, 1)
    return rng.uniform(lo, hi) * scale


def single(m, rng, hooks, steps, removal, handle):
    xml, n = model_spec(rng)
    ts = None if rng.rand() < .5 else float(rng.choice([.001, .003]))
    n_sub, n_inter = int(rng.choice([1, 1, 2, 2, 3, 3, 5, 8])), int(rng.choice([1, 1, 2, 2, 3, 3, 5]))
    acts = [] if rng.rand() < .3 else [n['acts'][i] for i in rng.permutation(len(n['acts']))[:int(rng.randint(1, len(n['acts']) + 1))]]
    ospec = spec(rng, n)
    sv = [k for k, nm, ot in ospec if ot == O.JOINT_VEL and nm in n['joints']]
    mjv = None if rng.rand() < .5 else rng.uniform(1, 9, len(sv)).tolist()
    addl = spec(rng, n)
    addl = [('add_' + k, nm, ot) for k, nm, ot in addl]
    groups = [(f'grp{i}', [n['geoms'][j] for j in rng.permutation(len(n['geoms']))[:int(rng.randint(1, len(n['geoms']) + 1))]]) for i in range(3)]
    log = Log()
    log.ev, log.thr, log.force = [], float(rng.uniform(.05, 1)), rng.normal(size=3) * .5
    hooks = set(hooks)
    cls = make_class(MuJoCo, hooks, log, rng)
    with tempfile.TemporaryDirectory() as tmp:
        src = mjcf.from_xml_string(xml) if handle else write_xml(tmp, xml)
        kw = dict(timestep=ts, n_substeps=n_sub, n_intermediate_steps=n_inter, additional_data_spec=addl, collision_groups=groups, max_joint_vel=mjv)
        env = cls(src, acts, [tuple(x) for x in ospec], .97, 40, **kw)
    m.seen('model', len(n['joints']), len(n['frees']), len(n['acts']), n_sub, n_inter, tuple(sorted(hooks)), tuple(str(x[2]) for x in ospec))
    tw = Twin(xml, ts)
    # --- spaces
    low, high, layout, vi = [], [], {}, 0
    jp, jv = [], []
    for k, nm, ot in ospec:
        sz = len(tw.read(nm, ot))
        layout[k] = [(len(low) + i, i) for i in range(sz)]
        lo, hi = [-np.inf] * sz, [np.inf] * sz
        if sz == 1 and ot == O.JOINT_POS:
            jp.append(k)
            i = tw.id(mujoco.mjtObj.mjOBJ_JOINT, nm)
            if tw.m.jnt_limited[i]:
                lo, hi = [tw.m.jnt_range[i][0]], [tw.m.jnt_range[i][1]]
        elif sz == 1 and ot == O.JOINT_VEL:
            jv.append(k)
            if mjv is not None:
                lo, hi = [-mjv[vi]], [mjv[vi]]
                vi += 1
        low += lo
        high += hi
    ai = [tw.id(mujoco.mjtObj.mjOBJ_ACTUATOR, a) for a in acts] if acts else list(range(tw.m.nu))
    m.eq(env.info.observation_space.low.tolist(), low, 'observation-bounds', 'lower bounds of the observation space')
    m.eq(env.info.observation_space.high.tolist(), high, 'observation-bounds', 'upper bounds of the observation space')
    m.eq(env.info.action_space.low.tolist(), [tw.m.actuator_ctrlrange[i][0] if tw.m.actuator_ctrllimited[i] else -np.inf for i in ai],
         'action-bounds', 'lower bounds of the action space')
    m.eq(env.info.action_space.high.tolist(), [tw.m.actuator_ctrlrange[i][1] if tw.m.actuator_ctrllimited[i] else np.inf for i in ai],
         'action-bounds', 'upper bounds of the action space')
    m.close(env.info.dt, tw.m.opt.timestep * n_sub * n_inter, 'dt', 'control period')
    m.close(env.dt, tw.m.opt.timestep * n_sub * n_inter, 'dt', 'control period')
    m.eq((env.info.gamma, env.info.horizon), (.97, 40), 'info', 'gamma and horizon')
    # --- removal of entries, in any order, and added entries
    omit = {}
    if removal:
        cands = [(k, i) for k, nm, ot in ospec for i in range(len(layout[k])) if len(layout[k]) > 1]
        order, dens = int(rng.randint(3)), float(rng.choice([.5, .9]))
        perm = [rng.permutation(len(cands)), np.arange(len(cands)), np.arange(len(cands))[::-1]][order]
        for k, i in [cands[j] for j in perm]:
            if len(omit.get(k, [])) < len(layout[k]) - 1 and rng.rand() < dens:
                try:
                    env.obs_helper.remove_obs(k, i)
                except Exception as e:
                    m.ok(False, 'remove-entry', f'removing entry {i} of {k} after {omit.get(k, [])} of {len(layout[k])} raised {type(e).__name__}: {e}')
                    return
                omit.setdefault(k, []).append(i)
                m.event('removed-entry')
        low2, high2, pos, where = [], [], 0, {}
        for k, nm, ot in ospec:
            keep = [i for _, i in layout[k] if i not in omit.get(k, [])]
            where[k] = (pos, pos + len(keep))
            pos += len(keep)
            low2 += [low[layout[k][i][0]] for i in keep]
            high2 += [high[layout[k][i][0]] for i in keep]
        low, high = low2, high2
    else:
        where = {k: (v[0][0], v[-1][0] + 1) for k, v in layout.items()}
    if '_create_observation' in hooks:
        mn, mx = rng.uniform(-1, 0, 2).tolist(), rng.uniform(0, 1, 2).tolist()
        env.obs_helper.add_obs('added', 2, mn if rng.rand() < .5 else mn[0], mx)
        where['added'] = (len(low), len(low) + 2)
        high = high + mx
        m.close(env.obs_helper.get_obs_limits()[0][-2], mn[0], 'added-bounds', 'lower bound of an added observation')
        low = low + env.obs_helper.get_obs_limits()[0][-2:].tolist()
    lo, hi = env.obs_helper.get_obs_limits()
    m.eq(np.asarray(lo).tolist(), low, 'helper-bounds', f'lower observation bounds after removing {omit}')
    m.eq(np.asarray(hi).tolist(), high, 'helper-bounds', f'upper observation bounds after removing {omit}')
    m.eq(np.asarray(env.obs_helper.get_joint_pos_limits()[1]).tolist(), [high[where[k][0]] for k in jp], 'joint-limits', 'joint position limits')
    m.eq(np.asarray(env.obs_helper.get_joint_vel_limits()[0]).tolist(), [low[where[k][0]] for k in jv], 'joint-limits', 'joint velocity limits')
    m.eq(env.get_all_observation_keys(), [k for k, _, _ in ospec] + (['added'] if '_create_observation' in hooks else []), 'keys', 'observation keys')

    reads = {}
    ref = Ref(tw, ospec, hooks, omit, acts, n_sub, n_inter, log)
    done = 0
    while done < steps:
        # --- reset, possibly from a given observation
        mujoco.mj_resetData(tw.m, tw.d)
        given = None
        if rng.rand() < .5:
            keep = dict()
            for k, nm, ot in ospec:
                if ot in (O.JOINT_POS, O.JOINT_VEL) and nm in n['joints'] + n['frees']:
                    a, b = tw.joint(nm, 'pos' if ot == O.JOINT_POS else 'vel')
                    buf = tw.d.qpos if ot == O.JOINT_POS else tw.d.qvel
                    v = buf[a:b] + rng.normal(size=b - a) * .1
                    if ot == O.JOINT_POS and b - a == 7:
                        v[2] = abs(v[2]) + .1
                        if any(i >= 3 for i in omit.get(k, [])):
                            v[3:] = buf[a + 3:b]
                        else:
                            v[3:] /= np.linalg.norm(v[3:])
                    idx = [i for i in range(b - a) if i not in omit.get(k, [])]
                    buf[a + np.array(idx, int)] = v[idx]
            d = tw.fresh()
            given = np.concatenate([np.delete(tw.read(nm, ot, d), omit.get(k, [])) for k, nm, ot in ospec])
            if '_create_observation' in hooks:
                given = np.append(given, [0., 0.])
            m.event('reset-from-observation')
        keepgiven = None if given is None else given.copy()
        r = env.reset(given) if given is not None else env.reset()
        m.ok(isinstance(r, tuple) and len(r) == 2, 'reset-result', 'reset returns an observation and an info dictionary')
        got = r[0]
        want = ref.reset()
        kind = 'initial-observation' if given is None else 'initial-observation-given'
        m.close(got, want, kind, f'observation after reset ({"given" if given is not None else "default"}), spec {ospec}', rtol=1e-7, atol=1e-8)
        m.event('observation-entry', len(want))
        m.ok(given is None or np.array_equal(given, keepgiven), 'reset-changes-argument', 'reset changed the observation it was given')
        for a, b in ((groups[0], groups[1]), (groups[1], groups[2]), (groups[0], groups[0])):
            m.eq(bool(env._check_collision(a[0], b[0])), len(tw.collide(a[1], b[1], tw.fresh())) > 0, 'collision-after-reset', f'collision flag {a} {b} after reset')
        log.ev.clear()
        held = []
        for _ in range(int(rng.randint(3, 9))):
            if rng.rand() < .25:      # write joint data between the steps
                js = [(k, nm, ot) for k, nm, ot in addl if ot in (O.JOINT_POS, O.JOINT_VEL) and nm in n['joints']]
                if js:
                    k, nm, ot = js[int(rng.randint(len(js)))]
                    a, b = tw.joint(nm, 'pos' if ot == O.JOINT_POS else 'vel')
                    v = float((tw.d.qpos if ot == O.JOINT_POS else tw.d.qvel)[a] + rng.normal() * .05)
                    env._write_data(k, v)
                    (tw.d.qpos if ot == O.JOINT_POS else tw.d.qvel)[a] = v
                    m.event('write')
            act = safe_action(rng, env.info.action_space)
            keepact = act.copy()
            got, rew, ab, info = env.step(act)
            done += 1
            m.event('env-step')
            wo, wr, wa, wi, ev = ref.step(act)
            m.close(got, wo, 'observation', f'observation after a step, spec {ospec}, actuators {acts}', rtol=1e-6, atol=1e-7)
            m.event('observation-entry', len(wo))
            m.close(rew, wr, 'reward', 'reward', rtol=1e-6, atol=1e-6)
            near = abs(abs(ref.obs[0]) - log.thr) < 1e-6
            m.ok(near or bool(ab) == wa, 'absorbing', 'absorbing flag')
            m.ok(sorted(info) == sorted(wi) and all(abs(info[k] - wi[k]) < 1e-5 * (1 + abs(wi[k])) for k in wi), 'info-dictionary', f'info {info} expected {wi}')
            m.ok(np.array_equal(act, keepact), 'step-changes-action', 'step changed the action array')
            match_events(m, log.ev, ev, f'hooks {sorted(hooks)} n_sub {n_sub} n_inter {n_inter}')
            log.ev.clear()
            # --- data, collisions, slices
            for k, (was, copy) in reads.items():
                m.ok(np.array_equal(was, copy), 'read-data-changes-later', f'{k}: values read before the step changed with it')
            for k, nm, ot in addl:
                reads[k] = (env._read_data(k), np.array(env._read_data(k)))
                m.close(env._read_data(k), tw.read(nm, ot), 'read-data', f'read {nm} {ot}', rtol=1e-6, atol=1e-7)
            for a, b in ((groups[0], groups[1]), (groups[1], groups[2]), (groups[2], groups[2])):
                con = tw.collide(a[1], b[1])
                m.event('collision-query')
                m.event('collision-true', int(len(con) > 0))
                m.eq(bool(env._check_collision(a[0], b[0])), len(con) > 0, 'collision', f'collision flag {a} {b}')
                f = np.array(env._get_collision_force(a[0], b[0]), dtype=float).ravel()
                if not con:
                    m.ok(f.shape == (6,) and np.all(f == 0), 'collision-force', 'force without contact')
                else:
                    fs = []
                    for c in con:
                        x = np.zeros(6)
                        mujoco.mj_contactForce(tw.m, tw.d, c, x)
                        fs.append(x)
                    m.ok(any(np.allclose(f, x, rtol=1e-5, atol=1e-5) for x in fs), 'collision-force', f'force {f} is none of the contact forces {fs}')
            full = ref.obs
            for k, (a, b) in where.items():
                m.ok(np.array_equal(env.obs_helper.get_from_obs(full, k), full[a:b]), 'slice', f'entries of {k} in the observation')
            m.eq(env.obs_helper.get_joint_pos_from_obs(full).tolist(), [full[where[k][0]] for k in jp], 'slice', 'joint positions of an observation')
            m.eq(env.obs_helper.get_joint_vel_from_obs(full).tolist(), [full[where[k][0]] for k in jv], 'slice', 'joint velocities of an observation')
            for o, c in held:
                if not np.array_equal(o, c):
                    m.ok(False, 'observation-overwritten', 'an observation returned earlier was changed by a later step')
            held.append((got, got.copy()))
    env.stop()


def multi(m, rng, resets, random_reset):
    """MultiMuJoCo: every episode runs on one model of the list, with that model's own geometry, time step and limits."""
    xml, n = model_spec(rng)
    k = int(rng.randint(2, 5))
    scales = [1.] + [1. + .2 * (i + 1) for i in range(k - 1)]
    xmls = [model_spec(rng, s, extra_geom=bool(i % 2), plan=n['plan'])[0] for i, s in enumerate(scales)]
    ts = None if rng.rand() < .4 else .0015
    n_sub, n_inter = int(rng.randint(1, 3)), int(rng.randint(1, 3))
    ospec = spec(rng, n)
    if not any(o[2] == O.BODY_POS and o[1] == 'b00' for o in ospec):
        ospec.append(('root', 'b00', O.BODY_POS))
    acts = [n['acts'][i] for i in rng.permutation(len(n['acts']))]
    groups = [(f'grp{i}', [n['geoms'][j] for j in rng.permutation(len(n['geoms']))[:int(rng.randint(1, len(n['geoms']) + 1))]]) for i in range(3)]
    log = Log()
    log.ev, log.thr, log.force = [], 1e9, np.zeros(3)
    hooks = set(h for h in ('_preprocess_action', '_simulation_post_step', '_create_observation') if rng.rand() < .5)
    cls = make_class(MultiMuJoCo, hooks, log, rng)
    with tempfile.TemporaryDirectory() as tmp:
        srcs = [write_xml(tmp, x, f'm{i}.xml') for i, x in enumerate(xmls)]
        env = cls(srcs, acts, ospec, .9, 30, timestep=ts, n_substeps=n_sub, n_intermediate_steps=n_inter, collision_groups=groups,
                  random_env_reset=random_reset)
        # models with other limits must be refused
        if rng.rand() < .5:
            from copy import deepcopy
            p2 = deepcopy(n['plan'])
            p2['limact'] = [[not v for v in row] for row in p2['limact']]
            bad = write_xml(tmp, model_spec(rng, 1., plan=p2)[0], 'bad.xml')
            m.raises(ValueError, lambda: cls([srcs[0], bad], acts, ospec, .9, 30), 'multi-different-action-space')
            p3 = deepcopy(n['plan'])
            p3['ranges'] = (np.array(p3['ranges']) * 1.1).tolist()
            if any(o[2] == O.JOINT_POS and o[1] in n['joints'] and n['plan']['limited'][int(o[1][1])][int(o[1][2])] for o in ospec):
                bad = write_xml(tmp, model_spec(rng, 1., plan=p3)[0], 'bad2.xml')
                m.raises(ValueError, lambda: cls([srcs[0], bad], acts, ospec, .9, 30), 'multi-different-limits')
    twins = [Twin(x, ts) for x in xmls]
    m.ok(env.more_than_one_env, 'multi-count', 'more than one environment')
    seq = []
    m.close(env.info.dt, twins[0].m.opt.timestep * n_sub * n_inter, 'dt', 'control period')
    for e in range(resets):
        r = env.reset()
        m.event('multi-reset')
        m.ok(isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict), 'multi-reset-result', 'reset of a multi-model environment returns an observation and an info dictionary')
        cand = []
        for i, t in enumerate(twins):
            mujoco.mj_resetData(t.m, t.d)
            ref = Ref(t, ospec, hooks, {}, acts, n_sub, n_inter, log)
            if np.allclose(ref.reset(), r[0], rtol=1e-7, atol=1e-8):
                cand.append((i, ref))
        m.eq(len(cand), 1, 'multi-initial-observation', f'initial observation is that of exactly one model (episode {e}, candidates {[c[0] for c in cand]})')
        if len(cand) != 1:
            return
        i, ref = cand[0]
        seq.append(i)
        log.ev.clear()
        for _ in range(int(rng.randint(1, 5))):
            act = safe_action(rng, env.info.action_space)
            got, rew, ab, info = env.step(act)
            m.event('env-step')
            wo, wr, wa, wi, ev = ref.step(act)
            m.event('observation-entry', len(wo))
            m.close(got, wo, 'multi-observation', f'observation of model {i} after a step (timestep {ts})', rtol=1e-6, atol=1e-7)
            m.close(rew, wr, 'multi-reward', 'reward', rtol=1e-6, atol=1e-6)
            match_events(m, log.ev, ev, 'multi')
            log.ev.clear()
            for a, b in ((groups[0], groups[1]), (groups[1], groups[2])):
                con = ref.t.collide(a[1], b[1])
                m.event('collision-query')
                m.event('collision-true', int(len(con) > 0))
                m.eq(bool(env._check_collision(a[0], b[0])), len(con) > 0, 'multi-collision', f'collision flag {a} {b} on model {i}')
    if random_reset:
        m.seen('random-sequence', tuple(seq))
        if resets >= 60:
            c = np.bincount(seq, minlength=k)
            m.ok(abs(c - resets / k).max() < 6.5 * np.sqrt(resets / k * (1 - 1 / k)), 'multi-uniform', f'models drawn {c.tolist()} times')
    else:
        m.ok(all((b - a) % k == 1 for a, b in zip(seq, seq[1:])), 'multi-order', f'models of the episodes {seq}: not in list order')
    if '_create_observation' in hooks:
        return
    # the environment is usable by the Core
    class Pol(Policy):
        def __init__(self):
            super().__init__()
            self._add_save_attr()

        def draw_action(self, state, policy_state=None):
            return safe_action(rng, env.info.action_space), None

        def reset(self, initial_state=None):
            return None
    ag = Agent(env.info, Pol())
    ds = Core(ag, env).evaluate(n_episodes=2, quiet=True)
    m.eq(len(ds), 60, 'core-run', 'two episodes of the horizon were collected by the Core')


def bits(m, rng, n):
    for _ in range(n):
        k = int(rng.randint(1, 40))
        maps = [MultiMuJoCo._get_env_id_map(i, k) for i in range(k)]
        m.ok(len({len(x) for x in maps}) == 1, 'env-id', 'identifiers of one list have the same length')
        m.ok(all(int(''.join(str(int(b)) for b in x), 2) == i for i, x in enumerate(maps)), 'env-id', f'identifiers of {k} models are not their binary index')
        m.event('env-id')


def kinematics(m, rng, n):
    for _ in range(n):
        xml, nm = model_spec(rng)
        mod = mujoco.MjModel.from_xml_string(xml)
        dat = mujoco.MjData(mod)
        tw = Twin(xml)
        for _ in range(4):
            q = tw.d.qpos.copy()
            nj = len(nm['joints'])
            q[:nj] = rng.normal(size=nj)
            b = str(rng.choice(nm['bodies']))
            k = nj if rng.rand() < .5 else len(q)
            qq = q[:k].copy()
            pos, rot = forward_kinematics(mod, dat, qq, b)
            tw.d.qpos[:] = q
            f = tw.fresh()
            i = tw.id(mujoco.mjtObj.mjOBJ_BODY, b)
            m.close(pos, f.xpos[i], 'kinematics-position', f'position of {b}', rtol=1e-9, atol=1e-10)
            m.close(np.asarray(rot).ravel(), f.xmat[i], 'kinematics-rotation', f'orientation of {b}', rtol=1e-9, atol=1e-10)
            m.ok(np.array_equal(qq, q[:k]), 'kinematics-argument', 'forward kinematics changed the configuration')
            m.event('kinematics')


def cases(tier, rng):
    n = 300 if tier == 'quick' else 4000
    for i in range(n):
        mode = i % 4
        if mode == 0:
            hooks = []
        elif mode == 1:
            hooks = list(HOOKS)
        else:
            hooks = [h for h in HOOKS if rng.rand() < .5]
        yield 'single', dict(hooks=hooks, steps=20, removal=bool(i % 3 == 1), handle=bool(i % 5 == 2))
    for i in range(60 if tier == 'quick' else 800):
        yield 'multi', dict(resets=6 if i % 2 == 0 else 12, random_reset=bool(i % 2))
    yield 'multi', dict(resets=80 if tier == 'quick' else 400, random_reset=True)
    yield 'bits', dict(n=20)
    yield 'kinematics', dict(n=40 if tier == 'quick' else 300)
