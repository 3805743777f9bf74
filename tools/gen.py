"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/gen.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        anchors = dict(files=p['files'], mechanism=p['mechanism'])
        if p['observe']:
            anchors['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=anchors)) + '\n')

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
        checks.append(dict(property=p['id'], quick_cmd=f"./run.sh {p['id']} --tier quick",
                           thorough_cmd=f"./run.sh {p['id']} --tier thorough",
                           evidence_file=f"evidence/{p['id']}.json",
                           technique=p['technique'], level='exploration', level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason='monitor not built yet'))
man = dict(version=1, setup_cmd='./setup.sh',
           hooks=dict(guard='MUSHROOM_VERIF_HOOKS', enable='not needed: the monitors wrap public entry points from '
                      'the harness process, no source change in /repo is guarded', source_commits=[]),
           checks=checks, not_applicable=na,
           notes='All checks import the package from /repo\'s working tree (pure Python, nothing to compile); '
                 'known_findings.json lists recorded and repaired defects; DESIGN.md explains every oracle.')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
