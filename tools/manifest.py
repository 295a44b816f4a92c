#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a binding in harness/props is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('Exhaustive TLC exploration of the specification over the small scope written in the binding, plus seeded larger inputs evaluated by the same '
        'specification; the real code is run on every one of them and must show exactly what the specification requires. Trusts the specification, TLC and the '
        'encoder that turns abstract inputs into images; inputs outside the explored scope are not decided.')
NA = {}
checks = []
for i in ids:
    if os.path.exists(os.path.join(V, 'harness', 'props', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                           technique='TLA+ specification checked with TLC; model behaviours replayed into the code and recorded inputs evaluated by the model',
                           level='model_checking', level_note=NOTE))
na = [dict(property=i, reason=NA.get(i, 'The check is not built yet.')) for i in ids if i not in [c['property'] for c in checks]]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not claimed')
