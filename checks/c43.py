"""C43: plots and experiment summaries show the data they are given."""
import os

os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('SDL_VIDEODRIVER', 'dummy')

import shutil, tempfile
import numpy as np
import scipy.stats as st
from mushroom_rl.core import Core
from mushroom_rl.rl_utils.spaces import Box, Discrete
from vlib.stubs import Log, ScriptEnv, MonPolicy, MonAgent, snapshot

PROPERTY = 'C43'
RULE = ('random tables of runs and epochs for the summaries; random sequences of updates, activations, resets and reloads for the data '
        'buffers; real Core runs with the plotting callback on an offscreen display, plots switched on and off between samples. Every '
        'buffer and every drawn curve is compared with the model after each phase')
NEED = dict(summaries=200, buffer_operations=1500, evictions=100, reloads=20, plotted_samples=1200, toggles=150, curves=300, limit_lines=60,
            episodes_plotted=120)
CASE_LIMIT = 200


def summary(m, rng, runs, epochs, scale, offset):
    from mushroom_rl.utils.plot import get_mean_and_confidence, plot_mean_conf
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    data = rng.randn(runs, epochs) * scale + offset
    if rng.rand() < .2:
        data[:, 0] = offset
    keep = data.copy()
    mean, conf = get_mean_and_confidence(data)
    want = data.sum(0) / runs
    half = np.sqrt(((data - want) ** 2).sum(0) / (runs - 1) / runs) * st.t.ppf(.975, runs - 1)
    m.close(mean, want, 'mean', rtol=1e-9, atol=1e-9 * (abs(offset) + scale))
    ok = half > 1e-12 * (abs(offset) + scale)
    m.close(np.asarray(conf)[ok], half[ok], 'confidence-interval', f'{runs} runs', rtol=1e-6, atol=1e-9 * (abs(offset) + scale))
    m.eq(data, keep, 'summary-changes-the-data')
    fig, ax = plt.subplots()
    plot_mean_conf(data, ax, color='red', line='--', label='a')
    lines = ax.get_lines()
    m.eq(len(lines), 1, 'one-curve')
    m.close(lines[0].get_ydata(), want, 'drawn-mean', rtol=1e-9, atol=1e-9 * (abs(offset) + scale))
    m.eq(np.asarray(lines[0].get_xdata(), float), np.arange(epochs, dtype=float), 'drawn-epochs')
    m.eq(lines[0].get_label(), 'a', 'label')
    paths = ax.collections[0].get_paths()
    v = paths[0].vertices if paths else np.zeros((0, 2))
    m.ok(len(v) or not ok.any(), 'interval-not-drawn')
    for e in range(epochs):
        if ok[e]:
            y = v[v[:, 0] == e][:, 1]
            m.close([y.min(), y.max()], [want[e] - half[e], want[e] + half[e]], 'drawn-interval', rtol=1e-6, atol=1e-6 * half[e])
    plt.close(fig)
    m.event('summaries')
    m.seen(data)


def buffers(m, rng, length, ops):
    from mushroom_rl.utils.plots import DataBuffer
    scratch = tempfile.mkdtemp(prefix='verif_c43_')
    try:
        b, model, on = DataBuffer('b', length), [], True
        other = DataBuffer('c', length)
        for _ in range(ops):
            op = rng.choice(['update'] * 5 + ['track', 'reset', 'save', 'set'], p=[.14] * 5 + [.12, .06, .06, .06])
            m.event('buffer_operations')
            if op == 'update':
                x = [float(v) for v in rng.randn(rng.randint(0, 6))]
                given = list(x)
                b.update(x)
                m.eq(x, given, 'update-changes-its-argument')
                if on:
                    model += given
                    if length is not None and len(model) > length:
                        model = model[len(model) - length:]
                        m.event('evictions')
            elif op == 'track':
                on = bool(rng.rand() < .6)
                b.enable_tracking(on)
            elif op == 'reset':
                b.reset()
                model = []
            elif op == 'save':
                b.save(scratch)
                b = DataBuffer.load(os.path.join(scratch, 'b'))
                m.eq(b.name, 'b', 'reloaded-name')
                m.event('reloads')
            m.eq(list(b.get()), model, 'buffer-content', str(op))
            m.eq(b.size, len(model), 'buffer-size')
            m.eq(other.size, 0, 'other-buffer')
        m.seen(length, model)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class Bounded(ScriptEnv):
    def __init__(self, script, horizon, log, lo, hi, discrete):
        super().__init__(script, horizon, log, discrete=discrete)
        self.info.observation_space = Box(np.array(lo), np.array(hi))
        if not discrete:
            self.info.action_space = Box(np.full(2, -1e9), np.full(2, 1e9))


def live(m, rng, script, horizon, phases, window, normalized, discrete, bounds):
    from mushroom_rl.utils.callbacks import PlotDataset
    from PyQt5.QtWidgets import QTreeWidget
    import pyqtgraph as pg
    log = Log()
    lo, hi = [x[0] for x in bounds], [x[1] for x in bounds]
    env = Bounded(script, horizon, log, lo, hi, discrete)
    keep = [env.info.observation_space.low.copy(), env.info.observation_space.high.copy()]
    cb = PlotDataset(env.info, obs_normalized=normalized, window_size=window, update_freq=1000, show=False)
    m.eq([env.info.observation_space.low, env.info.observation_space.high], keep, 'plot-changes-the-space')
    samples = []

    def step(s):
        samples.append([np.array(s[0], float), np.array(s[1], float), float(s[2]), bool(s[5])])
        cb(s)
        m.event('plotted_samples')
    core = Core(MonAgent(env.info, MonPolicy(log, 'numpy', discrete), log), env, callback_step=step)
    win = cb.plot_window
    tree = win.findChild(QTreeWidget)
    tops = {tree.topLevelItem(i).text(0): tree.topLevelItem(i) for i in range(tree.topLevelItemCount())}
    na = 1 if discrete else 2
    bufs = dict(Instant_reward=cb.instant_reward_buffer, Episode_reward=cb.training_reward_buffer,
                Episode_len=cb.episodic_len_buffer_training)
    bufs.update({f'Action_{i}': cb.action_buffers_list[i] for i in range(na)})
    bufs.update({f'Observation_{i}': cb.observation_buffers_list[i] for i in range(3)})
    for k, b in bufs.items():
        m.eq(b.name, k, 'buffer-names')
    plots = {p.name: p for p in win.plot_list}
    parent = {b.name: p.name for p in win.plot_list for b in p.data_buffers}
    m.eq(sorted(parent), sorted(bufs), 'every-buffer-has-a-plot')
    curve = {b.name: c for p in win.plot_list for b, c in zip(p.data_buffers, p.plot_data_items_list)}
    item = {}
    for t in tops.values():
        for j in range(t.childCount()):
            item[t.child(j).text(0)] = t.child(j)
    m.eq(sorted(item), sorted(bufs), 'every-buffer-has-a-switch')
    active = set()                                  # names of plots and curves switched on
    all_on = False
    model = {k: [] for k in bufs}
    ep = [0., 0]
    always = {'Episode_reward', 'Episode_len'}
    for n in phases:
        for _ in range(rng.randint(0, 4)):          # the user clicks
            name = str(rng.choice(sorted(tops) + sorted(item)))
            win.clicked(tops[name] if name in tops else item[name])
            m.event('toggles')
            if name == 'ALL':
                all_on = not all_on
                active = set(plots) | set(bufs) if all_on else set()
            elif name in active:
                active.discard(name)
                if name in plots:
                    active -= {b.name for b in plots[name].data_buffers}
            else:
                active.add(name)
        del samples[:]
        core.evaluate(n_steps=n, quiet=True)
        for s, a, r, last in samples:
            new = {'Instant_reward': [r]}
            new.update({f'Action_{i}': [a[i]] for i in range(na)})
            new.update({f'Observation_{i}': [s[i]] for i in range(3)})
            ep = [ep[0] + r, ep[1] + 1]
            if last:
                new['Episode_reward'], new['Episode_len'] = [ep[0]], [ep[1]]
                ep = [0., 0]
                m.event('episodes_plotted')
            for k, x in new.items():
                if k in always or parent[k] in active:
                    model[k] += x
                    if k not in always:
                        model[k] = model[k][-window:]
        for k, b in bufs.items():
            m.eq([float(x) for x in b.get()], model[k], 'plotted-data', k)
        win.timecounter = -1e9
        win.refresh()
        for k, c in curve.items():
            p = plots[parent[k]]
            if parent[k] in active:
                y = c.getData()[1]
                m.eq([] if y is None else [float(x) for x in y], model[k], 'curve', k)
            m.eq(any(x is c for x in p.listDataItems()), k in active, 'curve-shown', f'{k} {sorted(active)}')
            m.event('curves')
            if k.startswith('Observation_') and k in active:
                i = int(k[-1])
                ys = sorted(x.value() for x in p.items if isinstance(x, pg.InfiniteLine))
                want = []
                for j in range(3):
                    if f'Observation_{j}' in active:
                        want += [-1., 1.] if normalized else [v for v in (lo[j], hi[j]) if np.isfinite(v)]
                m.close(ys, sorted(want), 'limit-lines')
                m.event('limit_lines')
    m.seen(script, phases, window, sorted(active))
    win.close()


def window(m, rng, n, flag, form):
    """a window of single-variable plots, one flag for all of them or one each"""
    from mushroom_rl.utils.plots import DataBuffer, Window, PlotItemBuffer
    from PyQt5.QtWidgets import QTreeWidget
    bufs = [DataBuffer(f'b{i}', 5) for i in range(n)]
    ps = [PlotItemBuffer(f'p{i}', [dict(data_buffer=b)]) for i, b in enumerate(bufs)]
    flags = [flag] * n
    if form == 'list':
        flags = [bool(x) for x in rng.rand(n) < .5]
    kw = {} if form == 'default' else dict(track_if_deactivated=flags if form == 'list' else flag)
    if form == 'default':
        flags = [False] * n
    win = Window(ps[0] if n == 1 and rng.rand() < .5 else ps, update_freq=1000, **kw)
    tree = win.findChild(QTreeWidget)
    on, model = [False] * n, [[] for _ in range(n)]
    for k in range(12):
        i = int(rng.randint(n))
        win.clicked(tree.topLevelItem(i + 1))
        on[i] = not on[i]
        m.event('toggles')
        for j, b in enumerate(bufs):
            x = [float(v) for v in rng.randn(rng.randint(1, 4))]
            b.update(x)
            if on[j] or flags[j]:
                model[j] = (model[j] + x)[-5:]
            m.eq(list(b.get()), model[j], 'tracked-data', f'{form} {flags} {on}')
        win.timecounter = -1e9
        win.refresh()
        for j, p in enumerate(ps):
            if on[j]:
                m.eq([float(v) for v in p.plot_data_items_list[0].getData()[1]], model[j], 'curve')
                m.event('curves')
    win.close()
    m.seen(n, flags, form, model)


def cases(tier, rng):
    q = tier == 'quick'
    for i in range(260 if q else 2000):
        yield summary, dict(runs=int(rng.choice([2, 3, 5, 20])), epochs=int(rng.randint(1, 12)), scale=float(rng.choice([1e-2, 1., 1e3])),
                            offset=float(rng.choice([0., 5., -1e3])))
    for i in range(60 if q else 600):
        yield buffers, dict(length=[None, 1, 3, 10][i % 4], ops=40)
    for i in range(12 if q else 80):
        yield 'window', dict(n=int(rng.randint(1, 4)), flag=bool(rng.rand() < .5), form=['default', 'single', 'list'][i % 3])
    for i in range(24 if q else 150):
        bounds = [[float(a), float(a) + float(rng.choice([1., 5., np.inf]))] for a in rng.choice([-1., 0., -2.5], 3)]
        yield 'live', dict(script=[int(x) for x in rng.randint(0, 6, 3)], horizon=int(rng.choice([3, 7])),
                           phases=[int(x) for x in rng.randint(3, 25, 8)], window=int(rng.choice([4, 20, 200])),
                           normalized=bool(rng.rand() < .4), discrete=bool(rng.rand() < .4), bounds=bounds)
