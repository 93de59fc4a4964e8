#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below. A property is claimed iff checks/<id>.py exists."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, C, I, P, H, G, F = 'schedules', 'crash_points', 'inputs', 'programs', 'histories', 'configurations', 'fault_sequences'
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=[f if f.startswith('bin/') else 'marcel/' + f for f in files],
                                   mechanism=[dict(name=n, where=w) for n, w in mech],
                                   **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                                   **({'observe_at': list(observe)} if observe else {}),
                                   hook_needed=None)))
    if na:
        NA[id] = na


NA = {}

exec(open(os.path.join(V, 'tools', 'props.py')).read())

ids = [p['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append(dict(
            property=i,
            quick_cmd=f'/opt/venv/bin/python check.py {i} --tier quick',
            thorough_cmd=f'/opt/venv/bin/python check.py {i} --tier thorough',
            evidence_file=f'evidence/{i}.json',
            technique='deterministic simulation with fault injection: seeded search over schedules and faults',
            level='exploration',
            level_note=NOTES.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason='no check has been built for it yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, \'/verif\'); import sim.runner"',
         hooks=dict(guard='VERIF_SIM', enable='No hooks in /repo are needed: every seam is a Python-level call into the standard '
                    'library, replaced from /verif/sim/rt.py in the simulated processes only.', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Every command runs marcel from /repo/marcel as it is in the working tree (pure Python, nothing to compile).')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties', len(checks), 'checks', [n['property'] for n in na])
