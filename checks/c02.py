import numpy as np
from vlib.stubs import *
from mushroom_rl.core import Core
from mushroom_rl.utils.callbacks import CollectDataset

PROPERTY = 'C02'
RULE = ('random fit schedules (every N steps / N episodes) x run budgets (steps / episodes) x termination scripts x '
        'backends x agent kinds, several runs per loop; distinct by the digest of the delivered blocks, non-trivial '
        'when at least one fit took place')
NEED = dict(fits=1500, samples_delivered=5000, episodic_fits=100, callbacks=1500, partial_blocks=50, evaluations=50,
            info_values=2000)
F = ['state', 'action', 'reward', 'next_state', 'absorbing', 'last']


def run(m, rng, backend, agent_backend, discrete, stateful, episodic, script, horizon, runs, collect):
    log = Log()
    hz = horizon if horizon else np.inf
    env = ScriptEnv(script, hz, log, backend, discrete)
    pol = MonPolicy(log, agent_backend, discrete, stateful)
    agent = MonAgent(env.info, pol, log, episodic=episodic, backend=agent_backend)
    collector = CollectDataset()
    cbs = [lambda d: log.add('cb', i=0, data=snapshot(d)), lambda d: log.add('cb', i=1, data=snapshot(d))]
    if collect:
        cbs.append(collector)
    core = Core(agent, env, callbacks_fit=cbs, callback_step=lambda s: log.add('sample', s=[
        np.array(x, dtype=float) for x in s[:6]]))
    collected = []
    for kind, mode, n, per in runs:
        del log[:]
        if kind == 'evaluate':
            core.evaluate(**{'n_' + mode: n}, quiet=True)
            m.eq(len(log.of('fit')), 0, 'fit-during-evaluation')
            m.eq(len(log.of('cb')), 0, 'callback-during-evaluation')
            m.event('evaluations')
            continue
        core.learn(**{'n_' + mode: n, 'n_' + per[0] + '_per_fit': per[1]}, quiet=True)
        pend, theta_pend, uids = [], [], []
        cnt = 0
        total_s = total_e = 0
        delivered = []
        i = 0
        due = False
        memory = []
        while i < len(log):
            k, kw = log[i]
            if k == 'episode_start' and episodic:
                theta_pend.append(kw['theta'])
            if k == 'draw' and stateful:
                memory.append((kw['ps'], kw['nps']))
            if k == 'step':
                uids.append(kw['uid'])
            if k == 'sample':
                m.ok(not due, 'fit-late', 'a step was taken while a fit was due')
                pend.append(kw['s'])
                total_s += 1
                total_e += int(kw['s'][5])
                cnt += 1 if per[0] == 'steps' else int(kw['s'][5])
                due = cnt >= per[1]
            if k == 'fit':
                m.ok(due, 'fit-early', f'fit after {cnt} of {per}')
                d = kw['data']
                m.eq(d['n'], len(pend), 'block-size')
                for j, f in enumerate(F):
                    m.eq(d[f].astype(float), np.array([s[j] for s in pend]), 'block-' + f)
                if stateful:
                    m.eq(d['ps'], np.array([a for a, _ in memory]), 'block-policy-state')
                    m.eq(d['nps'], np.array([b for _, b in memory]), 'block-policy-next-state')
                m.ok('info_error' not in d, 'info-unreadable', d.get('info_error'))
                m.eq(d['info']['uid'], np.array(uids, dtype=float), 'block-info')
                m.eq(d['info']['sub_v'], 2 * np.array(uids, dtype=float), 'block-nested-info')
                m.event('info_values', len(uids))
                if episodic and per[0] == 'episodes':
                    m.eq(d['theta'], theta_pend, 'block-theta')
                    m.event('episodic_fits')
                ncb = 0
                while i + 1 < len(log) and log[i + 1][0] == 'cb':
                    i += 1
                    m.eq(log[i][1]['i'], ncb, 'callback-order')
                    for j, f in enumerate(F):
                        m.eq(log[i][1]['data'][f].astype(float), np.array([s[j] for s in pend]), 'callback-data')
                    ncb += 1
                m.eq(ncb, 2, 'callback-count')
                m.event('callbacks', ncb)
                m.event('fits')
                m.event('samples_delivered', len(pend))
                delivered.append(len(pend))
                collected += pend
                if len(collected):
                    pass
                collected[-1] = collected[-1][:5] + [np.array(collected[-1][5])]
                bounds = len(collected)
                pend, uids, memory, theta_pend = [], [], [], []
                cnt = 0
                due = False
            i += 1
        m.ok(not due, 'fit-missing', 'run ended while a fit was due')
        if pend:
            m.event('partial_blocks')
        m.eq(total_s if mode == 'steps' else total_e, n, 'budget')
        m.seen(delivered, [s[0] for s in collected[-5:]], per, mode, n)
    if collect and collected:
        d = snapshot(collector.get())
        m.eq(d['n'], len(collected), 'collect-callback-length')
        for j, f in enumerate(F[:5]):
            m.eq(d[f].astype(float), np.array([s[j] for s in collected]), 'collect-callback-' + f)
        collector.clean()
        m.eq(len(collector.get()), 0, 'collect-callback-clean')
        m.event('collector_checks')
    m.sample(script=script, horizon=horizon, runs=runs, backend=backend)


def cases(tier, rng):
    n = 400 if tier == 'quick' else 6000
    for i in range(n):
        backend = ['numpy', 'torch'][i % 2]
        agent_backend = ['numpy', 'torch'][int(rng.randint(2))]
        horizon = int(rng.choice([1, 2, 3, 5, 8, 0, 13]))
        script = [int(x) for x in rng.randint(0 if horizon else 1, 9, size=rng.randint(1, 6))]
        episodic = bool(rng.rand() < .35)
        runs = []
        for _ in range(rng.randint(1, 4)):
            kind = 'learn' if rng.rand() < .8 else 'evaluate'
            mode = ['steps', 'episodes'][int(rng.randint(2))] if horizon else 'steps'
            nn = int(rng.randint(1, 40 if mode == 'steps' else 10))
            p = ['steps', 'episodes'][int(rng.randint(2))] if horizon else 'steps'
            if episodic and horizon:
                p = 'episodes'
            per = [p, int(rng.randint(1, 9 if p == 'steps' else 4))]
            runs.append([kind, mode, nn, per])
        yield run, dict(backend=backend, agent_backend=agent_backend, discrete=bool(rng.rand() < .4),
                        stateful=bool(rng.rand() < .3), episodic=episodic, script=script, horizon=horizon, runs=runs,
                        collect=bool(rng.rand() < .4))
