"""Shared runner of the runtime monitors.

A check module (checks/pNN.py) defines

    PROPERTY = 'P01'
    RULE     = text: how cases are made and what makes one non-trivial
    NEED     = {event kind: minimum number of observations}   (vacuity guard)
    def cases(tier, rng): yields (function, params-dict)

Each case function has the signature f(m, rng, **params): it drives the real code in /repo and reports what it saw
to the monitor ``m``.  ``m`` raises Violation as soon as an oracle disagrees; any exception that escapes a case is a
violation too (the same call succeeds on a tree where the property holds), except Inconclusive, which is the harness
saying it could not observe what it needed.
"""
import sys, os, json, time, hashlib, traceback, random, signal, collections, contextlib, io
import multiprocessing as mp

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(f'{key}: {msg}')
        self.key = key
        self.msg = msg


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def digest(obj):
    h = hashlib.blake2b(digest_size=8)

    def feed(o):
        if isinstance(o, np.ndarray):
            h.update(str(o.dtype).encode() + str(o.shape).encode() + np.ascontiguousarray(o).tobytes())
        elif isinstance(o, (list, tuple)):
            h.update(b'(')
            for x in o:
                feed(x)
            h.update(b')')
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                feed(o[k])
        elif hasattr(o, 'detach'):
            feed(o.detach().cpu().numpy())
        else:
            h.update(repr(o).encode())
    feed(obj)
    return h.hexdigest()


def to_np(x):
    if hasattr(x, 'detach'):
        return x.detach().cpu().numpy()
    return np.asarray(x)


class Monitor:
    """Collects observations and raises on disagreement."""

    def __init__(self):
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.comparisons = 0

    # observations -------------------------------------------------------------------------------------------------
    def event(self, kind, n=1):
        self.events[kind] += n

    def seen(self, *obj):
        self.distinct.add(digest(obj))

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({k: _jsonable(v) for k, v in kw.items()})

    # oracles ------------------------------------------------------------------------------------------------------
    def ok(self, cond, key, msg=''):
        self.comparisons += 1
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)

    def eq(self, got, want, key, msg=''):
        """Exact equality of scalars / arrays / nested containers."""
        self.comparisons += 1
        if not _equal(got, want):
            raise Violation(key, f'{msg} got={_short(got)} want={_short(want)}')

    def close(self, got, want, key, msg='', rtol=1e-9, atol=1e-11):
        self.comparisons += 1
        g, w = to_np(got), to_np(want)
        if g.shape != w.shape:
            raise Violation(key, f'{msg} shape got={g.shape} want={w.shape} got={_short(g)} want={_short(w)}')
        g = g.astype(float)
        w = w.astype(float)
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            with np.errstate(all='ignore'):
                d = np.nanmax(np.abs(g - w)) if g.size else 0
            raise Violation(key, f'{msg} maxdiff={d} got={_short(g)} want={_short(w)}')

    def raises(self, exc, fn, key, msg=''):
        self.comparisons += 1
        try:
            fn()
        except exc:
            return
        raise Violation(key, f'{msg}: expected {exc}')


def _equal(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(_equal(a[k], b[k]) for k in a)
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = to_np(a), to_np(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def _short(x, n=220):
    try:
        s = repr(to_np(x).tolist()) if not isinstance(x, (list, tuple, dict, str)) else repr(x)
    except Exception:
        s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def _jsonable(x):
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    try:
        return to_np(x).tolist()
    except Exception:
        return repr(x)


def derive(*parts):
    return int.from_bytes(hashlib.sha256(json.dumps(parts, sort_keys=True, default=str).encode()).digest()[:4], 'big')


def seed_all(s):
    random.seed(s)
    np.random.seed(s % (2 ** 32))
    if 'torch' in sys.modules:
        import torch
        torch.manual_seed(s)


@contextlib.contextmanager
def silence():
    """Silence python level output of the code under test (progress bars, prints)."""
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, m, seed, fname, params, limit):
    """Returns None (held), ('violation', key, msg, tb), ('inconclusive', msg)."""
    fn = getattr(mod, fname)
    s = derive(mod.PROPERTY, seed, fname, params)
    seed_all(s)
    rng = np.random.RandomState(s)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with silence():
            fn(m, rng, **{k: v for k, v in params.items() if k != '_rep'})
        return None
    except Violation as v:
        return 'violation', v.key, v.msg, traceback.format_exc()
    except Inconclusive as e:
        return 'inconclusive', str(e)
    except CaseTimeout:
        return 'violation', 'no-progress', f'case did not finish within {limit} s', traceback.format_exc()
    except Exception as e:
        tb = e.__traceback__
        site = '?'
        inlib = False
        while tb is not None:
            f = tb.tb_frame.f_code.co_filename
            if '/mushroom_rl/' in f:
                inlib = True
                site = f.split('/mushroom_rl/', 1)[1] + ':' + tb.tb_frame.f_code.co_name
            tb = tb.tb_next
        key = f'exception:{type(e).__name__}@{site}' if inlib else f'exception:{type(e).__name__}'
        return 'violation', key, f'{type(e).__name__}: {e}', traceback.format_exc()
    finally:
        signal.alarm(0)


def _worker(mod, seed, todo, limit, conn, deadline):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    m = Monitor()
    out = []
    n = 0
    for i, fname, params in todo:
        if time.time() > deadline:
            out.append((i, ('inconclusive', 'time budget of the run exhausted')))
            continue
        n += 1
        r = run_case(mod, m, seed, fname, params, limit)
        if r is not None:
            out.append((i, r))
    conn.send((n, dict(m.events), m.distinct, m.samples, m.comparisons, out))
    conn.close()
    os._exit(0)


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('known', []) if k['property'] == prop]


def main(mod, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()

    import mushroom_rl
    lib = os.path.realpath(mushroom_rl.__file__)
    if not lib.startswith(os.path.realpath(REPO) + os.sep):
        print(f'error: mushroom_rl imported from {lib}, not from {REPO}')
        return 2
    if hasattr(mod, 'prepare'):
        mod.prepare()

    prop = mod.PROPERTY
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        m = Monitor()
        res = run_case(mod, m, r['seed'], r['case'], r['params'], 600)
        if res is None:
            print('replay: property held on this case')
            return 0
        print(res[-1])
        print(f'VIOLATION property={prop} replay={a.replay}')
        return 1

    tier, seed = a.tier, a.seed
    limit = getattr(mod, 'CASE_LIMIT', 150) * (1 if tier == 'quick' else 4)
    budget = 780 if tier == 'quick' else float(os.environ.get('VERIF_BUDGET', 7200))
    deadline = t0 + budget
    rng = np.random.RandomState(derive(prop, seed, tier))
    todo, reps = [], {}
    for fn, params in mod.cases(tier, rng):
        name = fn if isinstance(fn, str) else fn.__name__
        if a.only and a.only not in name and a.only not in json.dumps(params, default=str):
            continue
        params = json.loads(json.dumps(params, default=_jsonable))
        same = json.dumps([name, params], sort_keys=True)
        reps[same] = reps.get(same, -1) + 1
        if reps[same]:
            params['_rep'] = reps[same]         # repeated configurations get their own random stream
        todo.append((len(todo), name, params))
    jobs = a.jobs or min(8, os.cpu_count() or 1, max(1, len(todo)))
    ctx = mp.get_context('fork')
    procs = []
    for j in range(jobs):
        rd, wr = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(mod, seed, todo[j::jobs], limit, wr, deadline))
        p.start()
        wr.close()
        procs.append((p, rd, j))

    m = Monitor()
    ran = 0
    results = []
    dead = []
    for p, rd, j in procs:
        try:
            if rd.poll(max(1, deadline - time.time() + limit + 5)):
                n, ev, dist, samp, comp, out = rd.recv()
                ran += n
                m.events.update(ev)
                m.distinct |= dist
                m.samples += samp
                m.comparisons += comp
                results += out
            else:
                dead.append(f'worker {j} gave no report in time')
                p.kill()
        except EOFError:
            dead.append(f'worker {j} died (exit {p.exitcode})')
        p.join(5)

    viol = {}
    inconcl = []
    for i, r in sorted(results, key=lambda x: x[0]):
        _, fname, params = todo[i]
        if r[0] == 'violation':
            viol.setdefault(f'{fname}/{r[1]}', []).append((fname, params, r))
        else:
            inconcl.append(f'{fname} {params}: {r[1]}')

    known = known_findings(prop)
    new = {}
    knownhit = []
    for k, v in viol.items():
        hit = [f for f in known if f['key'] == k]
        if hit:
            knownhit.append((hit[0], len(v)))
        else:
            new[k] = v

    for f, n in knownhit:
        print(f"KNOWN-FINDING: property={prop} {f['what']} (key {f['key']}, {n} cases)")

    missing = [f'{k} ({m.events.get(k, 0)} < {v})' for k, v in getattr(mod, 'NEED', {}).items()
               if m.events.get(k, 0) < v] if not a.only else []

    coverage = dict(
        evaluations=ran,
        distinct_nontrivial=len(m.distinct),
        rule=mod.RULE,
        samples=m.samples[:6] or [dict(case=todo[0][1], params=todo[0][2])] if todo else [],
        monitor_events=dict(sorted(m.events.items())),
        oracle_comparisons=m.comparisons,
        case_kinds=dict(collections.Counter(t[1] for t in todo)),
        inconclusive=inconcl[:20],
        known_findings=[f['key'] for f, _ in knownhit],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'), coverage=coverage,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    code = 0
    for n, (k, v) in enumerate(new.items()):
        fname, params, r = v[0]
        path = os.path.join(VERIF, 'evidence', 'replay', f'{prop}-{n}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, case=fname, params=params, key=k, message=r[2],
                           traceback=r[3], occurrences=len(v),
                           how=f'/verif/run.sh {prop} --replay {path}'), f, indent=1)
        print(f'-- {k} ({len(v)} cases), e.g. {fname} {params}: {r[2]}'[:1500])
        if a.v:
            print(r[3])
        print(f'VIOLATION property={prop} replay={path}')
        code = 1
    if code == 0 and (dead or missing):
        for d in dead:
            print('error:', d)
        for d in missing:
            print('inconclusive: too few observations of', d)
        code = 2
    if inconcl:
        print(f'note: {len(inconcl)} inconclusive cases, e.g. {inconcl[0]}'[:400])
        if code == 0 and len(inconcl) > 0.2 * len(todo):
            code = 2
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop} tier={tier} seed={seed}: {ran} executions, {len(m.distinct)} distinct, {m.comparisons} oracle '
          f'comparisons, {len(new)} violations, exit {code}, {time.time() - t0:.1f}s')
    return code
