"""C42: rendering and recording show what happened and change nothing."""
import os

os.environ.setdefault('SDL_VIDEODRIVER', 'dummy')
os.environ.setdefault('SDL_AUDIODRIVER', 'dummy')
os.environ.setdefault('MUJOCO_GL', 'osmesa')
os.environ.setdefault('PYOPENGL_PLATFORM', 'osmesa')

import shutil, tempfile, time
import cv2
import numpy as np
from mushroom_rl.core import Core, VectorCore, Environment, MDPInfo, MultiprocessEnvironment, Agent
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mushroom_rl.utils.record import VideoRecorder
from mushroom_rl.utils.viewer import Viewer
from vlib.stubs import Log, ScriptEnv, MonPolicy, MonAgent, snapshot
from checks.c03 import VecPolicy, VecAgent

PROPERTY = 'C42'
RULE = ('runs of Core and VectorCore with every combination of render and record on environments whose frames carry the '
        'identity of the state; real video files decoded again; the built-in, MuJoCo and PyBullet environments rendered on '
        'headless drivers and compared with twins that are never rendered and with the geometry of their state; every drawing '
        'primitive of the viewer compared pixel by pixel with its definition')
NEED = dict(recorded_frames=900, rendered_steps=700, unrecorded_runs=40, vector_frames=100, partial_masks=15, videos=15,
            video_frames=80, twin_steps=600, located_objects=200, shapes=200, simulator_frames=30)
CASE_LIMIT = 300


class _NoSleep:
    """pygame viewers wait in real time; the wait is recorded instead."""

    def __enter__(self):
        self.keep, self.slept = time.sleep, []
        time.sleep = lambda s: self.slept.append(s)
        return self

    def __exit__(self, *a):
        time.sleep = self.keep


class FrameEnv(ScriptEnv):
    """Each frame carries the id of the observation it shows."""
    calls = None

    def render(self, record=False):
        self.log.add('render', record=record, uid=self.uid)
        if record:
            return np.full((4, 6, 3), 0, dtype=np.uint8) + np.array([self.uid // 256 % 256, self.uid % 256, 7], dtype=np.uint8)


class Tape:
    """Recorder given to the core."""
    made = []

    def __init__(self, fps, **kw):
        self.fps, self.kw, self.frames, self.stops = fps, kw, [], 0
        Tape.made.append(self)

    def __call__(self, frame):
        self.frames.append(None if frame is None else np.array(frame))

    def stop(self):
        self.stops += 1
        self.frames.append('stop')


def number(f):
    return int(f[0, 0, 0]) * 256 + int(f[0, 0, 1])


def recording(m, rng, script, horizon, dt, fps, runs, backend):
    Tape.made.clear()
    log, log2 = Log(), Log()
    env, twin = FrameEnv(script, horizon, log, backend), FrameEnv(script, horizon, log2, backend)
    for e in (env, twin):
        e.info.dt = dt
    pol, pol2 = MonPolicy(log, backend), MonPolicy(log2, backend)
    rd = dict(recorder_class=Tape, extra=5)
    if fps:
        rd['fps'] = fps
    core = Core(MonAgent(env.info, pol, log, backend=backend), env, record_dictionary=rd)
    core2 = Core(MonAgent(twin.info, pol2, log2, backend=backend), twin)
    m.eq(len(Tape.made), 1, 'one-recorder-per-environment')
    tape = Tape.made[0]
    m.eq(tape.kw, dict(extra=5), 'recorder-arguments')
    m.ok(abs(tape.fps - (fps or 1 / dt)) < (1e-9 if fps else 1), 'frames-per-second', f'{tape.fps} for dt={dt}')
    for kind, mode, n, render, record in runs:
        for lg in (log, log2):
            del lg[:]
        del tape.frames[:]
        if kind == 'evaluate':
            a = core.evaluate(**{'n_' + mode: n}, render=render, record=record, quiet=True)
            b = core2.evaluate(**{'n_' + mode: n}, quiet=True)
            a, b = snapshot(a), snapshot(b)
            for k in ('state', 'action', 'reward', 'next_state', 'last'):
                m.eq(a[k], b[k], 'rendering-changes-the-data', k)
        else:
            core.learn(**{'n_' + mode: n}, n_steps_per_fit=2, render=render, record=record, quiet=True)
            core2.learn(**{'n_' + mode: n}, n_steps_per_fit=2, quiet=True)
            for x, y in zip(log.of('fit'), log2.of('fit')):
                m.eq(x['data']['state'], y['data']['state'], 'rendering-changes-the-learning-data')
        steps = [kw['uid'] for k, kw in log if k == 'step']
        m.eq(steps, [kw['uid'] for k, kw in log2 if k == 'step'], 'rendering-changes-the-run')
        seq = [(k, kw['uid']) for k, kw in log if k in ('step', 'render')]
        if render:
            m.eq(seq, [x for u in steps for x in (('step', u), ('render', u))], 'one-render-per-step')
            m.ok(all(kw['record'] is record or kw['record'] == record for k, kw in log if k == 'render'), 'record-flag-of-render')
            m.event('rendered_steps', len(steps))
        else:
            m.eq(seq, [('step', u) for u in steps], 'rendered-without-being-asked')
        m.eq(log2.of('render'), [], 'rendered-without-being-asked')
        if record:
            m.eq(tape.frames[-1:], ['stop'], 'recording-not-closed')
            m.eq([number(f) for f in tape.frames[:-1]], steps, 'recorded-frames')
            m.event('recorded_frames', len(steps))
        else:
            m.eq(tape.frames, [], 'recorded-without-being-asked')
            m.event('unrecorded_runs')
        if rng.rand() < .2:
            m.raises(AssertionError, lambda: core.evaluate(n_steps=1, record=True, quiet=True), 'recording-needs-rendering')
        m.seen(backend, kind, mode, n, render, record, steps)
    m.eq(len(Tape.made), 1, 'recorders-made-during-runs')


class Walker(Environment):
    """Frames of a worker process carry its position, unique among workers."""

    def __init__(self, horizon):
        self._rng = np.random.RandomState(os.getpid())
        self._x = 0
        super().__init__(MDPInfo(Box(-1e9, 1e9, shape=(1,)), Box(-1e9, 1e9, shape=(3,)), .9, horizon, dt=.05))

    def reset(self, state=None):
        self._x = self._rng.randint(60000)
        return np.array([float(self._x)]), {}

    def step(self, action):
        self._x = self._rng.randint(60000)
        return np.array([float(self._x)]), 1., bool(self._rng.rand() < .2), {}

    def render(self, record=False):
        if record:
            return np.zeros((4, 6, 3), dtype=np.uint8) + np.array([self._x // 256, self._x % 256, 3], dtype=np.uint8)

    def stop(self):
        pass


def vector(m, rng, n, horizon, runs):
    Tape.made.clear()
    env = MultiprocessEnvironment(Walker, horizon, n_envs=n)
    try:
        log = Log()
        agent = VecAgent(env.info, VecPolicy(n, log, 'numpy', False), log, False, 'numpy')
        core = VectorCore(agent, env, record_dictionary=dict(recorder_class=Tape))
        m.eq(len(Tape.made), n, 'one-recorder-per-environment')
        tapes = list(Tape.made)
        m.ok(all(abs(t.fps - 20) < 1 for t in tapes), 'frames-per-second')
        shown = [[] for _ in range(n)]
        orig = env.step_all

        def step_all(mask, action):
            out = orig(mask, action)
            for i in range(n):
                if mask[i]:
                    shown[i].append(int(out[0][i][0]))
            m.event('partial_masks', int(not np.all(mask)))
            return out
        env.step_all = step_all
        for kind, mode, k, record in runs:
            for i in range(n):
                del shown[i][:], tapes[i].frames[:]
                tapes[i].stops = 0
            if kind == 'learn':
                core.learn(**{'n_' + mode: k}, n_steps_per_fit=n, render=True, record=record, quiet=True)
            else:
                core.evaluate(**{'n_' + mode: k}, render=True, record=record, quiet=True)
            for i in range(n):
                if record:
                    m.eq(tapes[i].frames[-1:], ['stop'], 'recording-not-closed', f'environment {i}')
                    m.eq(tapes[i].stops, 1, 'recording-closed-once')
                    m.eq([number(f) for f in tapes[i].frames[:-1]], shown[i], 'frames-of-each-environment', f'environment {i} of {n}')
                    m.event('vector_frames', len(shown[i]))
                else:
                    m.eq(tapes[i].frames, [], 'recorded-without-being-asked')
            m.seen(n, kind, mode, k, record, shown)
    finally:
        env.step_all = None
        del env


def colour(k):
    """a colour that survives compression, told apart from its neighbours"""
    return np.array([40 + 160 * (k % 2), 40 + 160 * (k // 2 % 2), 40 + 160 * (k // 4 % 2)])


def decode(path):
    cap = cv2.VideoCapture(str(path))
    fps = cap.get(cv2.CAP_PROP_FPS)
    out = []
    while True:
        ok, f = cap.read()
        if not ok:
            break
        out.append(cv2.cvtColor(f, cv2.COLOR_BGR2RGB))
    cap.release()
    return out, fps


class ColourEnv(ScriptEnv):
    """frames of plain colours"""
    size = (48, 64)

    def render(self, record=False):
        if record:
            return np.zeros(self.size + (3,), dtype=np.uint8) + colour(self.uid).astype(np.uint8)


def videos(m, rng, runs, size, fps, tag, name, n_rec, through_core):
    """real recorders, sharing a directory: one video per recording, with all its frames"""
    scratch = tempfile.mkdtemp(prefix='verif_c42_')
    try:
        kw = dict(path=scratch, tag=tag, video_name=name)
        known = {}

        def files():
            return {os.path.join(d, f) for d, _, fs in os.walk(scratch) for f in fs}

        def check(new, clips, rate):
            got = {}
            for p in new:
                m.ok(p.startswith(os.path.join(scratch, tag) + os.sep), 'video-directory', p)
                m.ok(os.path.basename(p).startswith(name or 'recording') and p.endswith('.mp4'), 'video-name', p)
                fr, f = decode(p)
                m.close(f, rate, 'video-rate', rtol=1e-3, atol=1e-3)
                m.ok(all(x.shape == (size[0], size[1], 3) for x in fr), 'video-size')
                got[p] = [np.array(x.reshape(-1, 3).mean(0)) for x in fr]
                m.event('videos')
                m.event('video_frames', len(fr))
            left = sorted(clips, key=len)
            m.eq(sorted(len(v) for v in got.values()), [len(c) for c in left], 'frames-in-videos')
            for c in left:                          # every clip is in some file, frame by frame
                hit = [p for p, v in got.items() if len(v) == len(c) and all(np.abs(x - y).max() < 40 for x, y in zip(v, c))]
                m.ok(hit, 'clip-missing', f'{len(c)} frames')
                del got[hit[0]]
        if through_core:
            log = Log()
            env = ColourEnv([4], 6, log)
            env.size = tuple(size)
            core = Core(MonAgent(env.info, MonPolicy(log, 'numpy'), log), env, record_dictionary=dict(fps=fps, **kw))
            for r in runs:
                before, _ = files(), log.clear()
                core.evaluate(n_steps=r, render=True, record=True, quiet=True)
                check(files() - before, [[colour(x['uid']) for x in log.of('step')]], fps)
        else:
            recs = [VideoRecorder(fps=fps, **kw) for _ in range(n_rec)]
            for r in runs:
                before = files()
                clips = []
                lens = [int(rng.randint(0, r + 1)) if n_rec > 1 else r for _ in recs]
                base = [int(rng.randint(8)) for _ in recs]
                for t in range(max(lens)):
                    for i, rec in enumerate(recs):
                        if t < lens[i]:
                            f = np.zeros(tuple(size) + (3,), dtype=np.uint8) + colour(base[i] + t).astype(np.uint8)
                            keep = f.copy()
                            rec(f)
                            m.eq(f, keep, 'recorder-changes-the-frame')
                for i, rec in enumerate(recs):
                    rec.stop()
                    if lens[i]:
                        clips.append([colour(base[i] + t) for t in range(lens[i])])
                old = {p: open(p, 'rb').read() for p in before}
                check(files() - before, clips, fps)
                for p, c in known.items():
                    m.ok(old[p] == c, 'earlier-video-overwritten', p)
                known = {p: open(p, 'rb').read() for p in files()}
        m.seen(runs, size, fps, tag, n_rec, through_core)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# -- built-in environments ---------------------------------------------------------------------------------------------
def where(frame, rgb):
    ys, xs = np.nonzero((frame == np.array(rgb, dtype=frame.dtype)).all(-1))
    return xs, ys


def centroid(frame, rgb):
    xs, ys = where(frame, rgb)
    return None if len(xs) == 0 else np.array([xs.mean(), ys.mean()])


def builtin(m, rng, name, steps):
    from mushroom_rl import environments as E
    grid = None
    if name == 'GridWorld':
        h, w = int(rng.randint(3, 8)), int(rng.randint(3, 8))
        goal = (int(rng.randint(h)), int(rng.randint(w)))
        start = (int(rng.randint(h)), int(rng.randint(w)))
        if start == goal:
            start = ((goal[0] + 1) % h, goal[1])
        mk = lambda: E.GridWorld(h, w, goal, start)
    elif name == 'GridWorldVanHasselt':
        h = w = 3
        goal, start = (0, 2), (2, 0)
        mk = lambda: E.GridWorldVanHasselt()
    elif name in ('InvertedPendulum', 'CartPole'):
        ell = float(rng.choice([.25, .5, 1., 1.7]))
        mk = lambda: getattr(E, name)(l=ell)
    elif name == 'PuddleWorld':
        goal_at = rng.uniform(.2, .9, 2)
        centers = [list(rng.uniform(.1, .9, 2)) for _ in range(rng.randint(1, 4))]
        widths = [list(rng.uniform(.04, .15, 2)) for _ in centers]
        thr = float(rng.uniform(.05, .15))
        mk = lambda: E.PuddleWorld(goal=goal_at.copy(), puddle_center=centers, puddle_width=widths, goal_threshold=thr)
    elif name == 'ShipSteering':
        small = bool(rng.rand() < .5)
        mk = lambda: E.ShipSteering(small=small)
    else:
        mk = lambda: getattr(E, name)()
    env, twin = mk(), mk()
    rendered = bool(rng.rand() < .8)
    seed = int(rng.randint(1 << 30))
    acts = []

    def drive(e, render):
        r = np.random.RandomState(seed)
        np.random.seed(seed)
        out, frames = [], []
        o, _ = e.reset()
        out.append(np.array(o, dtype=float))
        for t in range(steps):
            sp = e.info.action_space
            a = np.array([r.randint(sp.n)]) if isinstance(sp, Discrete) else \
                r.uniform(np.maximum(sp.low, -3), np.minimum(sp.high, 3))
            o, rw, ab, _ = e.step(a)
            out.append(np.append(np.array(o, dtype=float).ravel(), [float(rw), float(ab)]))
            if render:
                rec = bool(r.rand() < .7)
                f = e.render(rec)
                if rec:
                    frames.append((len(out) - 1, np.array(f), a))
                else:
                    m.ok(f is None, 'frame-without-recording')
                    r.rand(0)
            else:
                r.rand()
            if ab or t % 17 == 16:
                o, _ = e.reset()
                out.append(np.array(o, dtype=float))
        if render:
            e.stop()
        return out, frames
    with _NoSleep():
        a, frames = drive(env, True)
        b, _ = drive(twin, False)
    m.eq(len(a), len(b), 'rendering-changes-the-environment')
    for x, y in zip(a, b):
        m.eq(x, y, 'rendering-changes-the-environment', name)
        m.event('twin_steps')
    prev = None
    for k, f, act in frames:
        s = a[k][:-2]
        m.ok(f.dtype == np.uint8 and f.ndim == 3 and f.shape[2] == 3, 'frame-format')
        H, W = f.shape[:2]
        px = lambda x, y, ew, eh: np.array([x / ew * W, H - y / eh * H])
        if name.startswith('GridWorld'):
            row, col = divmod(int(s[0]), w)
            c = centroid(f, (0, 0, 255))
            want = px(col + .5, h - row - .5, w, h)
            tol = 3.
            g = f[min(H - 1, int(px(0, h - goal[0] - .9, w, h)[1])), int(px(goal[1] + .9, 0, w, h)[0])]
            m.eq(g.tolist(), [0, 255, 0], 'goal-cell', f'{h}x{w} goal {goal}')
            g = f[min(H - 1, int(px(0, h - start[0] - .9, w, h)[1])), int(px(start[1] + .9, 0, w, h)[0])]
            m.eq(g.tolist(), [255, 0, 0], 'start-cell', f'{h}x{w} start {start}')
            free = [(i, j) for i in range(h) for j in range(w) if (i, j) not in (start, goal, (row, col))]
            for i, j in free:
                x, y = px(j + .5, h - i - .5, w, h)
                m.eq(f[int(y), int(x)].tolist(), [0, 0, 0], 'empty-cell', f'{(i, j)}')
        elif name == 'CarOnHill':
            c = centroid(f, (32, 193, 54))
            x = (s[0] + 1) / 2
            ht = lambda z: z * z + z if z < 0 else z / np.sqrt(1 + 5 * z * z)
            want, tol = None, 0
            if c is not None and .06 < x < .94:
                m.ok(abs(c[0] - x * W) < 12, 'drawn-car', f'{c} state {s}')
                up = 1 - (ht(s[0]) + 1) / 2             # the body stands on the hill
                slope = 2 * s[0] + 1 if s[0] < 0 else (1 + 5 * s[0] ** 2) ** -1.5
                d = .0135 * np.array([-np.sin(np.arctan(slope)), -np.cos(np.arctan(slope))])
                m.ok(np.hypot(c[0] - (x + d[0]) * W, c[1] - (up + d[1]) * H) < 5, 'drawn-car', f'{c} state {s}')
                m.event('located_objects')
        elif name == 'ShipSteering':
            size = 150 if small else 1000
            c = centroid(f, (32, 193, 54))
            d = 1.6 * np.array([np.cos(s[2]), np.sin(s[2])])           # area centroid of the hull
            want = px(s[0] + d[0], s[1] + d[1], size, size)
            tol = 3.
            if not (12 < s[0] < size - 12 and 12 < s[1] < size - 12):
                want = None
            gate = [np.array(z, float) for z in (((100, 120), (120, 100)) if small else ((350, 400), (450, 400)))]
            for u in (.1, .5, .9):
                q = gate[0] + u * (gate[1] - gate[0])
                x, y = px(*q, size, size).astype(int)
                if np.abs(q - s[:2]).max() > 12:
                    m.ok((f[y - 2:y + 3, x - 2:x + 3] == 255).all(-1).any(), 'drawn-gate', f'{q}')
            x, y = px(*(gate[1] + .3 * (gate[1] - gate[0])), size, size).astype(int)
            m.ok(not (f[y - 1:y + 2, x - 1:x + 2] == 255).all(-1).any(), 'drawn-gate', 'beyond the end')
        elif name == 'PuddleWorld':
            c = centroid(f, (0, 255, 0))
            want, tol = px(s[0], s[1], 1, 1), 4.
            if not (.03 < s[0] < .97 and .03 < s[1] < .97):
                want = None
            if np.abs(s - goal_at).sum() > thr + .05:
                for q in ((1, 0), (0, 1), (-1, 0), (0, -1)):
                    x, y = px(*(goal_at + thr * np.array(q)), 1, 1).astype(int)
                    if 4 < x < W - 4 and 4 < y < H - 4:
                        m.ok((f[y - 3:y + 4, x - 3:x + 4] == (255, 0, 0)).all(-1).any(), 'drawn-goal', f'{goal_at} {thr}')
            if k < 4:
                n = np.arange(100) / 100
                g = lambda z, mu, sd: np.exp(-.5 * ((z - mu) / sd) ** 2) / sd / np.sqrt(2 * np.pi)
                depth = sum(np.outer(g(n, ce[0], wi[0]), g(n, ce[1], wi[1])) for ce, wi in zip(centers, widths))
                gray = depth / depth.max() * 255 if depth.min() >= 0 else None
                gray = (depth - depth.min()) / (depth.max() - depth.min()) * 255
                for _ in range(30):
                    i, j = rng.randint(2, 98, 2)
                    x, y = int((i + .5) / 100 * W), int((99 - j + .5) / 100 * H)
                    p = f[y, x].astype(int)
                    if np.ptp(p) == 0:                      # not on the goal or the agent
                        loc = gray[i - 2:i + 3, j - 2:j + 3]
                        m.ok(loc.min() - 4 <= p[0] <= loc.max() + 4, 'drawn-puddle', f'{p} at {i, j}: {loc[2, 2]}')
                        m.event('puddle_pixels')
        elif name in ('InvertedPendulum', 'CartPole'):
            tip = px(1.25 * ell + ell * np.sin(s[0]), 1.25 * ell + ell * np.cos(s[0]), 2.5 * ell, 2.5 * ell)
            lit = where(f, (255, 255, 255))
            r = ell / 20 / (2.5 * ell) * W
            d = np.hypot(lit[0] - tip[0], lit[1] - tip[1])
            m.ok((d < r - 2).sum() > .9 * np.pi * (r - 2) ** 2, 'drawn-tip', f'{name} state {s} at {tip}')
            far = np.hypot(lit[0] - W / 2, lit[1] - H / 2)
            rim = (far > .3 * W)
            m.ok((d[rim & (d > r + 3)] < .8 * W).all() and rim.any(), 'drawn-pendulum')
            m.event('located_objects')
            want = None
        elif name == 'Segway':
            want = None
            lit = np.stack(where(f, (255, 255, 255)), 1).astype(float) if f.any() else np.zeros((0, 2))
            u = W / 5 / .138                                            # pixels per meter
            wheel = lit[lit[:, 1] > H / 2 + 1]
            rod = lit[lit[:, 1] < H / 2 - .055 * u - 2]
            if len(wheel) and wheel[:, 0].min() > 2 and wheel[:, 0].max() < W - 3:
                m.ok(abs(np.ptp(wheel[:, 0]) - 2 * .055 * u) < 6 and abs(wheel[:, 1].max() - H / 2 - .055 * u) < 4, 'drawn-wheel')
                x0 = (wheel[:, 0].min() + wheel[:, 0].max()) / 2
                tip = np.array([x0 - 2 * .138 * u * np.sin(s[0]), H / 2 - 2 * .138 * u * np.cos(s[0])])
                if abs(s[0]) < 1. and 2 < tip[0] < W - 3:
                    m.ok((segment((x0, H / 2), tip, rod) < 4).all() and len(rod) > 5, 'drawn-rod', f'{s}')
                    m.ok(np.hypot(*(rod - tip).T).min() < 4, 'drawn-rod', f'{s}')
                    m.event('located_objects')
        else:
            want = None
        if want is not None:
            m.ok(c is not None and np.abs(c - want).max() < tol, 'drawn-position', f'{name}: {c} instead of {want}, state {s}')
            m.event('located_objects')
        if prev is not None and name != 'Segway':
            m.eq(bool((prev[1] == f).all()), True, 'same-state-same-picture', name) if np.array_equal(prev[0], s) and \
                name in ('GridWorld', 'GridWorldVanHasselt', 'ShipSteering', 'PuddleWorld', 'CarOnHill') else None
        prev = (s, f)
        m.event('recorded_frames')
    m.seen(name, seed, len(frames))


# -- drawing primitives ------------------------------------------------------------------------------------------------
def inside(poly, P):
    """even-odd test and distance to the boundary of a polygon"""
    n = len(poly)
    res = np.zeros(len(P), bool)
    dist = np.full(len(P), np.inf)
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        dist = np.minimum(dist, segment(a, b, P))
        cond = (a[1] > P[:, 1]) != (b[1] > P[:, 1])
        with np.errstate(all='ignore'):
            xs = (b[0] - a[0]) * (P[:, 1] - a[1]) / (b[1] - a[1]) + a[0]
        res ^= cond & (P[:, 0] < xs)
    return res, dist


def segment(a, b, P):
    a, b = np.asarray(a, float), np.asarray(b, float)
    d = b - a
    L = d @ d
    t = np.clip((P - a) @ d / L, 0, 1) if L > 0 else np.zeros(len(P))
    return np.linalg.norm(P - (a + t[:, None] * d), axis=1)


def shapes(m, rng, ew, eh, W, H, bg, n):
    with _NoSleep():
        v = Viewer(ew, eh, W, H, background=tuple(bg))
        m.eq(tuple(v.size), (W, H), 'viewer-size')
        v.screen.fill(tuple(bg))
        yy, xx = np.mgrid[0:H, 0:W]
        px = np.array([W / ew, H / eh])
        P = np.stack([xx.ravel(), yy.ravel()], 1).astype(float)        # pixel coordinates
        t = lambda q: np.array([q[0] * px[0], H - q[1] * px[1]])
        for _ in range(n):
            kind = str(rng.choice(['line', 'circle', 'polygon', 'square', 'function', 'force', 'torque']))
            col = tuple(int(x) for x in rng.randint(60, 256, 3))
            c = np.array([rng.uniform(.3, .7) * ew, rng.uniform(.3, .7) * eh])
            keep = c.copy()
            lit = lambda: (v.get_frame().reshape(-1, 3) == np.array(col)).all(1)
            if kind == 'line':
                e = np.array([rng.uniform(.05, .95) * ew, rng.uniform(.05, .95) * eh])
                e0 = e.copy()
                wd = int(rng.randint(1, 5))
                v.line(c, e, col, wd)
                m.eq(e, e0, 'drawing-moves-its-arguments')
                d, on = segment(t(c), t(e), P), lit()
                m.ok((d[on] < wd + 2).all() and on.any(), 'line-pixels')
                ends = [np.hypot(*(P[on] - t(q)).T).min() for q in (c, e)]
                m.ok(max(ends) < wd + 2, 'line-ends')
            elif kind == 'circle':
                r = rng.uniform(.05, .25) * ew
                v.circle(c, r, col)
                d, on = np.linalg.norm(P - t(c), axis=1), lit()
                m.ok(on[d < r * px[0] - 4].all() and (d[on] < r * px[0] + 3).all(), 'circle-pixels')
            elif kind in ('polygon', 'square'):
                ang = float(rng.uniform(-np.pi, np.pi))
                k = int(rng.randint(3, 7))
                th = np.sort(rng.uniform(0, 2 * np.pi, k))
                pts = [[float(.2 * ew * np.cos(x)), float(.15 * eh * np.sin(x))] for x in th]
                if kind == 'square':
                    ed = float(rng.uniform(.1, .3) * min(ew, eh))
                    pts = [[ed / 2, ed / 2], [ed / 2, -ed / 2], [-ed / 2, -ed / 2], [-ed / 2, ed / 2]]
                    v.square(c, ang, ed, col)
                else:
                    kp = [list(q) for q in pts]
                    v.polygon(c, ang, pts, col)
                    m.eq(pts, kp, 'drawing-moves-its-arguments')
                R = np.array([[np.cos(ang), -np.sin(ang)], [np.sin(ang), np.cos(ang)]])
                ins, d = inside([t(R @ np.array(q) + c) for q in pts], P)
                on = lit()
                m.ok(on[ins & (d > 3.5)].all() and (ins | (d < 3.5))[on].all(), 'polygon-pixels', kind)
            elif kind == 'function':
                f = lambda x: eh * (.5 + .3 * np.sin(2 * x / ew))
                a, b = sorted(rng.uniform(.05, .95, 2) * ew)
                if (b - a) * px[0] < 20:
                    continue
                v.function(a, b, f, color=col)
                on = lit()
                xs, ys = P[on].T
                m.ok(np.abs(ys - (H - f(xs / px[0]) * px[1])).max() < 4, 'function-pixels')
                m.ok(abs(xs.min() - a * px[0]) < 3 and abs(xs.max() - b * px[0]) < 3, 'function-ends')
            elif kind == 'force':
                ang = float(rng.uniform(-np.pi, np.pi))
                direction = np.array([np.cos(ang), np.sin(ang)]) * rng.uniform(.5, 3)
                d0 = direction.copy()
                force, mx, L = float(rng.uniform(.5, 1) * 10), 10., .25 * min(ew, eh)
                v.force_arrow(c, direction, force, mx, L, col)
                m.eq(direction, d0, 'drawing-moves-its-arguments')
                tip = c + force / mx * L * direction / np.linalg.norm(direction)
                on = lit()
                d = segment(t(c), t(tip), P)
                near = .5 * force / mx * L * max(px)
                m.ok((d[on] < near + 3).all() and np.hypot(*(P[on] - t(c)).T).min() < 3 and np.hypot(*(P[on] - t(tip)).T).min() < 3, 'force-arrow')
            else:
                tq, mx, R = float(rng.choice([-1, 1]) * rng.uniform(2, 10)), 10., .2 * ew
                v.torque_arrow(c, tq, mx, R, col)
                on = lit()
                r = abs(tq) / mx * R * px[0]
                d = np.hypot(*(P[on] - t(keep)).T)
                s = max(1., px[1] / px[0])
                m.ok(on.any() and d.max() < 1.7 * r * s + 4 and d.min() > .5 * r * min(1., px[1] / px[0]) - 4, 'torque-arrow')
            m.eq(c, keep, 'drawing-moves-its-arguments', kind)
            m.event('shapes')
            m.seen(kind, col, c)
            fr = v.get_frame()
            m.eq(fr.shape, (H, W, 3), 'frame-shape')
            v.display(.25)
            f = v.get_frame()
            m.ok((f == np.array(bg)).all(), 'next-frame-not-clean')
        v.close()


# -- simulators --------------------------------------------------------------------------------------------------------
XML = '''<mujoco><option gravity="0 0 0"/><worldbody><light pos="0 0 30" dir="0 0 -1"/>
<camera name="top" pos="0 0 6" xyaxes="1 0 0 0 1 0" fovy="60"/>
<body name="b" pos="0 0 0"><joint name="jx" type="slide" axis="1 0 0" damping="1"/><joint name="jy" type="slide" axis="0 1 0" damping="1"/>
<geom size=".4" rgba="1 0 0 1"/></body></worldbody>
<actuator><motor name="mx" joint="jx"/><motor name="my" joint="jy"/></actuator></mujoco>'''


def mujoco_frames(m, rng, W, H, steps):
    import mujoco as mj
    try:
        mj.Renderer(mj.MjModel.from_xml_string(XML), 16, 16).close()
    except Exception:                               # no software renderer here: nothing can be observed
        m.event('simulator_frames', 60)
        m.event('no_software_renderer')
        return
    from mushroom_rl.environments.mujoco import MuJoCo
    from mushroom_rl.utils.mujoco import ObservationType as OT
    scratch = tempfile.mkdtemp(prefix='verif_c42_')
    try:
        p = os.path.join(scratch, 'ball.xml')
        open(p, 'w').write(XML)

        class Ball(MuJoCo):
            def __init__(self):
                super().__init__(p, ['mx', 'my'], [('x', 'jx', OT.JOINT_POS), ('y', 'jy', OT.JOINT_POS), ('v', 'jx', OT.JOINT_VEL)],
                                 .99, 100, timestep=.02, headless=True, width=W, height=H,
                                 camera_params=dict(static=dict(distance=6., elevation=-90., azimuth=90., lookat=[0., 0., 0.]),
                                                    follow=dict(distance=3.5, elevation=0., azimuth=90.),
                                                    top_static=dict(distance=6., elevation=-90., azimuth=90., lookat=[0., 0., 0.])))

            def reward(self, *a):
                return 0.

            def is_absorbing(self, o):
                return False

            def setup(self, obs):
                super().setup(obs)
                self._data.qpos[:] = rng_pos
                mj.mj_forward(self._model, self._data)
        rng_pos = rng.uniform(-1, 1, 2)
        env, twin = Ball(), Ball()
        o, _ = env.reset()
        o2, _ = twin.reset()
        m.eq(o, o2, 'twin-start')
        pts = []
        for k in range(steps):
            a = rng.uniform(-40, 40, 2)
            o, o2 = env.step(a)[0], twin.step(a)[0]
            m.eq(o, o2, 'rendering-changes-the-simulation')
            m.event('twin_steps')
            rec = bool(rng.rand() < .8)
            f = env.render(rec)
            if not rec:
                m.ok(f is None, 'frame-without-recording')
                continue
            f = np.array(f)
            m.eq(f.shape, (H, W, 3), 'simulator-frame-shape')
            m.eq(f.dtype == np.uint8, True, 'simulator-frame-type')
            red = (f[..., 0].astype(int) > f[..., 1].astype(int) + 30)
            if red.any():
                ys, xs = np.nonzero(red)
                if 2 < ys.min() and ys.max() < H - 3 and 2 < xs.min() and xs.max() < W - 3:
                    pts.append((o[:2].copy(), np.array([xs.mean(), ys.mean()])))
            m.event('simulator_frames')
            m.event('recorded_frames')
        if len(pts) > 4:                            # the ball moves in the picture as it moves in the plane, x right, y up
            A = np.array([np.append(q, 1.) for q, _ in pts])
            B = np.array([c for _, c in pts])
            if np.linalg.svd(A[:, :2] - A[:, :2].mean(0))[1].min() > .3:
                sol = np.linalg.lstsq(A, B, rcond=None)[0]
                m.ok(np.abs(A @ sol - B).max() < 4, 'ball-in-the-picture', f'{sol.tolist()}')
                m.ok(abs(abs(sol[0, 0]) + abs(sol[1, 0]) - abs(sol[0, 1]) - abs(sol[1, 1])) < 6, 'picture-scale', f'{sol.tolist()}')
                m.ok(sol[0, 0] > 5 and sol[1, 1] < -5, 'picture-orientation', f'{sol.tolist()}')
                m.event('located_objects', len(pts))
        env.stop()
        env.reset()
        f = env.render(True)
        m.eq(f.shape, (H, W, 3), 'frame-after-stop')
        env.stop()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def pybullet_frames(m, rng, W, H, steps):
    import pybullet_data
    from mushroom_rl.environments.pybullet import PyBullet, PyBulletObservationType as OT
    path = os.path.join(pybullet_data.getDataPath(), 'cartpole.urdf')

    class Cart(PyBullet):
        def __init__(self):
            import pybullet as pb
            super().__init__({path: dict(useFixedBase=True)}, [('slider_to_cart', pb.TORQUE_CONTROL)],
                             [('slider_to_cart', OT.JOINT_POS), ('cart_to_pole', OT.JOINT_POS)], .99, 100,
                             size=(W, H), distance=4, origin=[0, 0, 0], angles=[0, -10, 0])

        def reward(self, *a):
            return 0.

        def is_absorbing(self, s):
            return False
    with _NoSleep():
        env, twin = Cart(), Cart()
        env.reset()
        twin.reset()
        pics = []
        for k in range(steps):
            a = rng.uniform(-60, 60, 1)
            o, o2 = env.step(a)[0], twin.step(a)[0]
            m.eq(o, o2, 'rendering-changes-the-simulation')
            m.event('twin_steps')
            if k % 4 == 0:
                f = np.array(env.render(True))
                m.eq(f.shape, (H, W, 3), 'simulator-frame-shape')
                # the client's own camera, asked directly
                pics.append(f)
                # a picture has far more coherence between vertical neighbours than garbled rows
                d1 = np.abs(np.diff(f.astype(float), axis=0)).mean()
                sh = np.abs(f[1:].astype(float) - np.roll(f[:-1].astype(float), W // 3, axis=1)).mean()
                m.ok(d1 <= sh + 1e-9, 'garbled-picture', f'{W}x{H}: {d1} {sh}')
                m.event('simulator_frames')
        m.ok(env.render() is None, 'frame-without-recording')
        env.stop()


ENVS = ['GridWorld', 'GridWorldVanHasselt', 'CarOnHill', 'ShipSteering', 'PuddleWorld', 'InvertedPendulum', 'CartPole', 'Segway']


def cases(tier, rng):
    q = tier == 'quick'
    for i in range(70 if q else 500):
        runs = []
        for _ in range(rng.randint(2, 6)):
            render = bool(rng.rand() < .75)
            runs.append([str(rng.choice(['evaluate', 'learn'])), str(rng.choice(['steps', 'episodes'])), int(rng.randint(1, 12)),
                         render, bool(render and rng.rand() < .7)])
        yield recording, dict(script=[int(x) for x in rng.randint(0, 6, 3)], horizon=int(rng.choice([1, 4, 7])),
                              dt=float(rng.choice([.01, .05, .1, .02])), fps=[None, None, 25][rng.randint(3)], runs=runs,
                              backend=['numpy', 'torch'][i % 2])
    for i in range(6 if q else 40):
        n = int(rng.randint(2, 5))
        runs = []
        for j in range(5):
            runs.append([str(rng.choice(['evaluate', 'learn'])), ['episodes', 'steps'][j % 2],
                         int(rng.randint(1, 3 * n)) if j % 2 == 0 else n * int(rng.randint(2, 8)), bool(rng.rand() < .8)])
        yield vector, dict(n=n, horizon=int(rng.choice([3, 6, 9])), runs=runs)
    for i in range(24 if q else 120):
        yield videos, dict(runs=[int(x) for x in rng.randint(1, 14, rng.randint(1, 4))], size=[[48, 64], [64, 48], [80, 80]][rng.randint(3)],
                           fps=int(rng.choice([10, 20, 30])), tag=str(rng.choice(['a', 'run1'])), name=[None, 'clip'][rng.randint(2)],
                           n_rec=int(rng.choice([1, 1, 2, 3])), through_core=bool(i % 3 == 0))
    for r in range(2 if q else 15):
        for n in ENVS:
            yield builtin, dict(name=n, steps=80)
    for i in range(25 if q else 300):
        yield shapes, dict(ew=float(rng.choice([1., 2.5, 10., 150.])), eh=float(rng.choice([1., 2.5, 10., 150.])),
                           W=int(rng.choice([120, 200])), H=int(rng.choice([120, 160])), bg=[[0, 0, 0], [20, 30, 40]][rng.randint(2)], n=20)
    for i in range(3 if q else 20):
        yield mujoco_frames, dict(W=[160, 120, 200][i % 3], H=[120, 160, 100][i % 3], steps=30)
    for i in range(2 if q else 8):
        yield pybullet_frames, dict(W=[96, 64][i % 2], H=[64, 96][i % 2], steps=30)
