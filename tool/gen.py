#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; both files are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, observe=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}, tech, note, na))

exec(open(os.path.join(V, 'tool', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, *_ in P: f.write(json.dumps(p) + '\n')
man = {'version': 1, 'setup_cmd': './setup', 'checks': [], 'not_applicable': [],
       'notes': 'All checks share one front end (tool/irx + lib/model.py) that compiles every analysable source of /repo to LLVM IR on each run; see DESIGN.md.'}
for p, tech, note, na in P:
    if na: man['not_applicable'].append({'property': p['id'], 'reason': na})
    else: man['checks'].append({'property': p['id'], 'quick_cmd': './check %s --quick' % p['id'], 'thorough_cmd': './check %s --thorough' % p['id'],
                                'technique': tech, 'level': 'other', 'level_note': note})
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
