"""Writes DESIGN.md: hand-written head and tail (tools/design_head.md, tools/design_tail.md), one section per property from
tools/props.py and the monitor itself, the planted-bug table from seeded/ and the costs from tools/costs.json."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, technique=None, note=None):
    P.append(dict(id=id, title=title, text=text, why=why, files=files, mechanism=mechanism, observe=observe or [], technique=technique, note=note))


exec(open(os.path.join(V, 'tools', 'props.py')).read())


def consts(path):
    sys.path[:0] = [V, '/repo']
    mod = importlib.import_module('checks.' + os.path.basename(path)[:-3])
    return dict(RULE=mod.RULE.rstrip('.'), NEED=getattr(mod, 'NEED', {}))


def main():
    tools = os.path.join(V, 'tools')
    o = [open(os.path.join(tools, 'design_head.md')).read().rstrip(), '']
    cost = json.load(open(os.path.join(tools, 'costs.json')))
    notes = {}
    cur = None
    for line in open(os.path.join(tools, 'design_notes.md')):
        if line.startswith('## '):
            cur = line[3:].strip()
            notes[cur] = []
        elif cur:
            notes[cur].append(line.rstrip())
    o += ['## Properties', '']
    for p in P:
        c = consts(os.path.join(V, 'checks', p['id'].lower() + '.py'))
        o += [f"### {p['id']} {p['title']}", '',
              f"*Quantified:* {p['text']}", '',
              f"*Decided by:* {p['technique']}. *Observed at:* {', '.join(p['observe'])}.", '',
              f"*Workload and oracle:* {c['RULE']}.", '',
              f"*Beyond the tests:* {p['why']}.", '']
        if p['id'] in notes:
            o += [x for x in notes[p['id']] if x] + ['']
        k = cost.get(p['id'], {})
        o += [f"*Bounds:* {p['note']} The run is inconclusive (exit 2) unless the monitors saw at least: "
              + ', '.join(f'{a} {b}' for a, b in c.get('NEED', {}).items()) + '.', '']
        if k:
            o += [f"*Cost on 8 cores:* " + '; '.join(f"{t}: {x['cases']} executions, {x['cmp']} oracle comparisons, {x['s']:.0f} s" for t, x in k.items()) + '.', '']
    o += ['## Planted bugs', '', 'Each was written from the statement of its property, confirmed (applies, builds, stable tests pass, demo fails with it and passes without), and run against the checks.', '',
          '| id | property | needs | caught by |', '|---|---|---|---|']
    caught = json.load(open(os.path.join(tools, 'caught.json'))) if os.path.exists(os.path.join(tools, 'caught.json')) else {}
    for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
        mta = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
        o.append(f"| {s} | {mta['property']} | {mta['needs']} | {caught.get(s, '?')} |")
    o += ['', open(os.path.join(tools, 'design_tail.md')).read().rstrip(), '']
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o))
    print(len('\n'.join(o).splitlines()), 'lines')


main()
