"""C31: loggers."""
import contextlib
import gc
import io
import logging
import os
import pickle
import re
import shutil
import tempfile
from pathlib import Path

import numpy as np
import torch

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import TorchApproximator
from mushroom_rl.core import Core, Logger, Serializable
from mushroom_rl.core.logger import DataLogger
from vlib.agents import build, seed_all
from vlib.common import digest

PROPERTY = 'C31'
RULE = ('random histories of logging calls by several loggers at once (experiment names, seeds and no seed, shared and own directories), '
        'with restarts that append or start afresh, a killed writer process, scalars, vectors that the caller goes on changing, arrays, '
        'datasets, periodic and best agents; after every call the files on disk are compared with a model of everything logged, files of '
        'the other runs must not change by a byte, and every message must be found once and in order in the log file of its own logger')
NEED = dict(values=2500, vectors=300, arrays=200, append_restarts=120, fresh_restarts=40, cross_checks=2500, agents=200, best_updates=120,
            best_kept=60, datasets=60, messages=800, muted_messages=100, same_name_loggers=60, killed_writers=3, mixed_seeds=60, losses=60, observed_agents=6)


class Snap(Serializable):
    """An object to be saved as an agent."""
    def __init__(self, v):
        self.v, self.heavy = v, np.arange(3.) + v
        self._add_save_attr(v='primitive', heavy='numpy!')


def files(root):
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(Path(root).rglob('*')) if p.is_file()}


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='c31-')
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Run:
    """Model of one run: everything logged under its name and seed."""
    def __init__(self, root, name, seed):
        self.root, self.name, self.seed = root, name, seed
        self.data, self.once, self.agents, self.disk = {}, {}, {}, {}
        self.best, self.best_ok, self.stored_ok, self.dataset = -np.inf, None, None, None
        self.log = None

    def start(self, append, direct=False):
        kw = dict(seed=self.seed) if self.seed is not None or np.random.rand() < .5 else {}
        if direct:
            p = Path(self.root) / self.name
            p.mkdir(exist_ok=True)
            self.log = DataLogger(p, suffix=self.suffix, append=append)
        else:
            self.log = Logger(self.name, results_dir=self.root, append=append, **kw)
        if not append:
            self.disk.update(self.data)         # files of the abandoned run stay until something is logged under their name
            self.data, self.once = {}, {}
        else:
            self.data = {**self.disk, **self.data}
        self.best = -np.inf

    @property
    def suffix(self):
        return '' if self.seed is None else f'-{self.seed}'

    def path(self, stem, ext):
        return Path(self.root) / self.name / (stem + self.suffix + ext)

    def own(self, f):
        """Whether a file (relative to root) belongs to this run."""
        d, n = os.path.split(f)
        if d != self.name:
            return False
        stem = n.rsplit('.', 1)[0]
        if n.startswith('agent'):
            s = stem[5:]
            return s.startswith(self.suffix) and s[len(self.suffix):] in ('', '-best', '-7', '-12', '-103')
        s = re.search(r'-\d+$', stem)
        return (s.group() if s else '') == self.suffix


def history(m, rng, n_runs, scheme):
    np.random.seed(int(rng.randint(2 ** 31)))
    with scratch() as root:
        if scheme == 'seeds':
            ids = [('exp', s) for s in rng.choice([0, 1, 2, 10, 11, 21, 100], n_runs, replace=False).tolist()]
        elif scheme == 'mixed':
            ids = [('exp', None)] + [('exp', s) for s in rng.choice([0, 1, 3, 13], n_runs - 1, replace=False).tolist()]
            m.event('mixed_seeds')
        else:
            ids = [(f'exp{i}' if i else 'exp', int(rng.choice([1, 2])) if rng.rand() < .7 else None) for i in range(n_runs)]
        ids = [ids[i] for i in rng.permutation(n_runs)]
        runs = [Run(root, n, s) for n, s in ids]
        for r in runs:
            r.start(bool(rng.rand() < .5))
            m.eq(str(r.log.path), str(Path(root) / r.name), 'path', 'logging directory')
        vecs = {}
        kinds = {}
        for t in range(rng.randint(10, 40)):
            r = runs[rng.randint(len(runs))]
            before = files(root)
            what = rng.choice(['num', 'num', 'num', 'num', 'vec', 'arr', 'agent', 'best', 'best', 'data', 'restart'])
            if what == 'num':
                vals = {}
                for k in rng.choice(['J', 'R', 'V_2', 'loss', 'a1', 'J_', 'j'], rng.randint(1, 4), replace=False).tolist():
                    v = [float(rng.randn()), int(rng.randint(-5, 50)), bool(rng.rand() < .5)][kinds.setdefault(k, int(rng.randint(3)))]
                    vals[k] = np.float64(v) if rng.rand() < .2 and isinstance(v, float) else v
                r.log.log_numpy(**vals)
                for k, v in vals.items():
                    r.data.setdefault(k, []).append(v)
                m.event('values', len(vals))
            elif what == 'vec':
                k = str(rng.choice(['w', 'theta']))
                v = vecs.setdefault((id(r), k), rng.randn(3 if k == 'w' else 2))
                v += rng.randn(*v.shape)          # the caller works in place
                r.log.log_numpy(**{k: v})
                r.data.setdefault(k, []).append(v.copy())
                m.event('vectors')
            elif what == 'arr':
                k = str(rng.choice(['grid', 'S']))
                v = rng.randn(*rng.randint(1, 4, rng.randint(1, 4)))
                if rng.rand() < .3:
                    v = (v * 10).astype(np.int32)
                r.log.log_numpy_array(**{k: v})
                r.once[k] = v.copy()
                m.event('arrays')
            elif what == 'agent':
                ep = [None, 7, 12, 103][rng.randint(4)] if r.seed is not None or scheme != 'mixed' else None
                v, full = float(rng.randn()), bool(rng.rand() < .5)
                r.log.log_agent(Snap(v), **({} if ep is None else dict(epoch=ep)), **(dict(full_save=full) if full or rng.rand() < .5 else {}))
                r.agents['' if ep is None else f'-{ep}'] = (v, full)
                m.event('agents')
            elif what == 'best':
                v, full = float(rng.randn()), bool(rng.rand() < .5)
                J = [float(rng.randn() * 10), -np.inf, float(r.best + 1e-12 * abs(r.best)), float(r.best - 1.)][rng.choice(4, p=[.7, .1, .1, .1])]
                if np.isnan(J):
                    J = 0.
                r.log.log_best_agent(Snap(v), J, **(dict(full_save=full) if full or rng.rand() < .5 else {}))
                if J > r.best:
                    r.best, r.stored_ok = J, [(v, full)]
                    m.event('best_updates')
                elif J == r.best:
                    r.stored_ok = (r.stored_ok or []) + [(v, full)]
                else:
                    m.event('best_kept')
            elif what == 'data':
                d = dict(x=rng.randn(3), k=int(rng.randint(9)))
                r.log.log_dataset(d)
                r.dataset = d
                m.event('datasets')
            else:
                append = bool(rng.rand() < .7)
                r.start(append, direct=rng.rand() < .3)
                m.event('append_restarts' if append else 'fresh_restarts')
            after = files(root)
            for f in set(before) | set(after):
                if before.get(f) != after.get(f):
                    m.ok(r.own(f), 'foreign-file', f'{what} of run {r.name}/{r.seed} changed {f}')
            if what == 'restart':
                m.ok(before == after, 'restart-writes', 'creating a logger changed a file')
            for q in runs:
                check(m, q)
                m.event('cross_checks')
            m.seen(scheme, what, r.name, r.seed)


def long(m, rng, n):
    """many epochs, in two sittings"""
    with scratch() as root:
        r = Run(root, 'long', int(rng.randint(3)) if rng.rand() < .5 else None)
        r.start(False)
        cut = int(rng.randint(n // 3, n))
        for t in range(n):
            if t == cut:
                r.start(True)
                m.event('append_restarts')
            v, w = float(rng.randn()), rng.randn(4)
            r.log.log_numpy(J=v, w=w)
            r.data.setdefault('J', []).append(v)
            r.data.setdefault('w', []).append(w)
            m.event('values')
            if t % 60 == 59:
                check(m, r)
        check(m, r)
        m.seen('long', n, cut)


def check(m, r):
    where = f'run {r.name} seed {r.seed}'
    for k, v in r.data.items():
        got = np.load(r.path(k, '.npy'))
        want = np.array([np.array(x) for x in v])
        m.eq(got.shape, want.shape, 'stored-count', f'{where}: {k}')
        m.eq(got.astype(float), want.astype(float), 'stored-values', f'{where}: {k}')
    for k, v in r.once.items():
        got = np.load(r.path(k, '.npy'))
        m.ok(got.dtype == v.dtype, 'stored-array-type', f'{where}: {k}')
        m.eq(got, v, 'stored-array', f'{where}: {k}')
    for s, (v, full) in r.agents.items():
        compare(m, r.path('agent', s + '.msh'), [(v, full)], f'{where}: agent{s}', 'stored-agent')
    if r.stored_ok:
        compare(m, r.path('agent', '-best.msh'), r.stored_ok, f'{where}: best agent', 'best-agent')
    if r.dataset is not None:
        with open(r.path('dataset', '.pkl'), 'rb') as f:
            m.ok(digest(pickle.load(f)) == digest(r.dataset), 'stored-dataset', where)


def compare(m, p, allowed, where, key):
    a = Serializable.load(p)
    got = (a.v, a.heavy is not None)
    m.ok(got in allowed, key, f'{where} is {got}, logged {allowed}')
    if a.heavy is not None:
        m.eq(np.array(a.heavy), np.arange(3.) + a.v, key, where)


# ------------------------------------------------------------------ crash of the writer
def killed(m, rng):
    """A process logs and is killed without any clean-up: what was logged before is there and a continued run appends to it."""
    with scratch() as root:
        n = int(rng.randint(1, 12))
        x = rng.randn(n)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                log = Logger('exp', results_dir=root, seed=3)
                for i in range(n):
                    log.log_numpy(J=x[i], k=i)
                os.write(w, b'x')
                os.kill(os.getpid(), 9)
            finally:
                os._exit(1)
        os.close(w)
        done = os.read(r, 1)
        os.close(r)
        os.waitpid(pid, 0)
        m.eq(done, b'x', 'writer', 'the writer did not finish')
        p = Path(root) / 'exp'
        m.eq(np.load(p / 'J-3.npy'), x, 'killed-writer', f'{n} values logged before the process was killed')
        log = Logger('exp', results_dir=root, seed=3, append=True)
        log.log_numpy(J=7., k=-1)
        m.eq(np.load(p / 'J-3.npy'), np.append(x, 7.), 'killed-writer-append', 'values after the continued run')
        m.eq(np.load(p / 'k-3.npy'), np.append(np.arange(n), -1), 'killed-writer-append', 'values after the continued run')
        m.event('killed_writers')
        m.seen('killed', n)


# ------------------------------------------------------------------ messages
LEVELS = ['debug', 'info', 'warning', 'error', 'critical']


def messages(m, rng, same):
    with scratch() as root:
        n = int(rng.randint(2, 4))
        logs = []

        def make(i):
            kw = {}
            lv = 0
            if rng.rand() < .4:
                lv = int(rng.randint(0, 4))
                kw['file_log_level'] = getattr(logging, LEVELS[lv].upper())
                if rng.rand() < .5:
                    kw['console_log_level'] = logging.ERROR
            if same:
                d, name, seed = os.path.join(root, f'd{i}'), 'exp', 1
                m.event('same_name_loggers')
            else:
                d, name, seed = root, 'exp', i
            fn = dict(log_file_name=f'own{i}') if rng.rand() < .3 else {}
            lg = Logger(name, results_dir=d, log_console=True, seed=seed, **kw, **fn)
            path = Path(d) / name / ((f'own{i}' if fn else f'{name}-{seed}') + '.log')
            return dict(log=lg, lv=lv, path=path, want=[])

        logs = [make(i) for i in range(n)]
        k = n
        for t in range(rng.randint(10, 40)):
            g = logs[rng.randint(len(logs))]
            r = rng.rand()
            if r < .08:         # a logger is replaced (the old one is collected afterwards)
                i = next(j for j in range(len(logs)) if logs[j] is g)
                verify(m, g)
                logs[i] = g = make(k)
                k += 1
                gc.collect()
                continue
            text = f'message {t} of {rng.randint(10 ** 6)}'
            if r < .75:
                lv = int(rng.randint(5))
                getattr(g['log'], LEVELS[lv])(text)
                line = (LEVELS[lv].upper(), text)
            elif r < .85:
                lv = 1
                g['log'].epoch_info(t, J=.5, loss=text)
                line = ('INFO', f'Epoch {t} | J: 0.5 loss: {text}')
            elif r < .95:
                lv = 1
                weak = rng.rand() < .5
                (g['log'].weak_line if weak else g['log'].strong_line)()
                line = ('INFO', '-' * 99 if weak else '#' * 99)
            else:
                lv = 3
                try:
                    raise KeyError('x')
                except KeyError:
                    g['log'].exception(text)
                line = ('ERROR', text)
            if lv >= g['lv']:
                g['want'].append(line)
            else:
                m.event('muted_messages')
            m.event('messages')
            m.seen('messages', same, lv, g['lv'])
        for g in logs:
            verify(m, g)


def verify(m, g):
    got = []
    for line in g['path'].read_text().splitlines():
        w = re.match(r'\d\d/\d\d/\d{4} \d\d:\d\d:\d\d \[(\w+)\] (.*)$', line)
        if w:
            got.append(w.groups())
    m.eq(got, g['want'], 'log-file', f'{g["path"].name}: messages found and messages logged to it')


def losses(m, rng, n_models):
    """a regressor with a logger stores one loss entry per fit: the mean batch loss of the last epoch of every model"""
    torch.manual_seed(int(rng.randint(1 << 30)))
    np.random.seed(int(rng.randint(1 << 30)))
    seen = []

    def loss(y_hat, y, reduction='mean'):
        v = torch.nn.functional.mse_loss(y_hat, y)
        seen.append(v.item())
        return v

    batch, size = int(rng.choice([0, 3, 4, 10])), int(rng.randint(1, 13))
    reg = Regressor(TorchApproximator, input_shape=(2,), output_shape=(1,), network=Lin, loss=loss, batch_size=batch,
                    optimizer={'class': torch.optim.SGD, 'params': {'lr': .01}}, quiet=True, **({} if n_models is None else dict(n_models=n_models)))
    name = None if rng.rand() < .4 else 'my_loss'
    want = []
    with scratch() as d:
        kw = {} if rng.rand() < .5 else dict(seed=int(rng.randint(20)))
        log = Logger('x', results_dir=d, **kw)
        if name is None and rng.rand() < .5:
            reg.set_logger(log)
        else:
            reg.set_logger(log, name)
        last = [None] * (n_models or 1)
        for k in range(int(rng.randint(2, 7))):
            del seen[:]
            ep = int(rng.randint(1, 4))
            which = int(rng.randint(n_models)) if n_models is not None and k and rng.rand() < .4 else None
            reg.fit(rng.randn(size, 2), rng.randn(size, 1), n_epochs=ep, **({} if which is None else dict(idx=which)))
            parts = [which] if which is not None else range(n_models or 1)
            per = len(seen) // (ep * len(list(parts)))
            for j, i in enumerate(parts):
                last[i] = np.mean(seen[(j + 1) * ep * per - per:(j + 1) * ep * per])
            want.append(np.array(last[0] if len(last) == 1 else last))
            m.event('losses')
        f = [x for x in files(d) if x.endswith('.npy')]
        suf = f"-{kw['seed']}" if kw else ''
        m.eq([os.path.basename(x) for x in f], [(name or 'loss') + suf + '.npy'], 'loss-file')
        got = np.load(os.path.join(d, f[0]))
        m.eq(np.shape(got), np.shape(np.array(want)), 'loss-shape')
        m.close(got, np.array(want), 'loss-entries', f'models {n_models} batch {batch}', rtol=1e-5, atol=1e-8)


class Lin(torch.nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.l = torch.nn.Linear(input_shape[0], output_shape[0])

    def forward(self, x):
        return self.l(x.float())


def observed(m, rng, kind):
    """an agent with a logger learns exactly what it learns without one, and reports every iteration"""
    s = int(rng.randint(1 << 30))

    def go(d):
        seed_all(s)
        ag, env, kw = build(kind)
        fits = []
        if d is not None:
            ag.set_logger(Logger('x', results_dir=d, log_console=True))
            ap = getattr(ag, 'approximator', None)
            if ap is not None:
                fit = ap.fit

                def observed_fit(*a, **k):
                    r = fit(*a, **k)
                    fits.append([np.array(ap[i].loss_fit).item() for i in range(len(ap))])
                    return r
                ap.fit = observed_fit
            else:
                fit0 = ag.fit

                def agent_fit(ds):
                    fits.append(float(np.mean(np.asarray(ds.undiscounted_return, dtype=float))))
                    return fit0(ds)
                ag.fit = agent_fit
        Core(ag, env).learn(quiet=True, **kw)
        w = (ag.approximator if hasattr(ag, 'approximator') else ag.policy).get_weights()
        return np.array(torch.as_tensor(w).detach().cpu(), dtype=float), fits

    with scratch() as d:
        a, _ = go(None)
        b, fits = go(d)
        m.event('observed_agents')
        m.ok(len(fits) > 0, 'observed-fits')
        m.eq(b, a, 'logger-changes-learning', kind)
        if kind in ('ppo', 'trpo'):
            txt = '\n'.join(Path(os.path.join(d, x)).read_text() for x in files(d) if x.endswith('.log'))
            rep = re.findall(r'Iteration (\d+):\s+rewards (\S+) ', txt)
            m.eq([int(x[0]) for x in rep], list(range(1, len(fits) + 1)), 'iteration-reports', kind)
            m.close([float(x[1]) for x in rep], fits, 'iteration-rewards', kind, rtol=1e-5, atol=1e-6)
        else:
            f = [x for x in files(d) if x.endswith('.npy')]
            m.eq([os.path.basename(x) for x in f], ['loss_Q.npy'], 'agent-loss-file')
            got = np.load(os.path.join(d, f[0]))
            m.eq(len(got), len(fits), 'agent-loss-count')
            m.close(got.reshape(len(fits), -1), np.array(fits), 'agent-loss-entries', kind, rtol=1e-5, atol=1e-8)


def cases(tier, rng):
    for _ in range(8 if tier == 'quick' else 40):
        for k in (None, 2, 3):
            yield 'losses', dict(n_models=k)
    for _ in range(1 if tier == 'quick' else 5):
        for k in ('ppo', 'trpo', 'dqn', 'averaged', 'categorical', 'dueling'):
            yield 'observed', dict(kind=k)
    n = 1 if tier == 'quick' else 6
    for _ in range(40 * n):
        for scheme in ('seeds', 'mixed', 'mixed', 'names'):
            yield 'history', dict(n_runs=int(rng.randint(2, 5)), scheme=scheme)
    for _ in range(4 * n):
        yield 'killed', {}
        yield 'long', dict(n=int(rng.choice([130, 400])))
    for _ in range(25 * n):
        yield 'messages', dict(same=True)
        yield 'messages', dict(same=False)
