#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (run after editing it)"""
import json
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from proptable import PROPS, NOT_APPLICABLE

TECH = 'symbolic execution of the real code (Python and C++ built over symbolic numbers), claims decided by SMT (z3), models replayed'
NOTE = ('Every claim is negated and given to the solver on every feasible path of the code, for all values within the bounds; '
        'exact real arithmetic (rounding is outside). Trusted: the symbolic number layer, the numpy/GSL/pybind11 stand-ins, '
        'the axioms for sqrt/exp/log, the solver. Bounds: %s.')

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['forall']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                         observe_at=p.get('observe', []), hook_needed=None))) + '\n')
        assert len(p['title']) <= 80, p['title']
na = {x['property'] for x in NOT_APPLICABLE}
sys.path.insert(0, VERIF)
checks = []
for p in PROPS:
    if p['id'] in na:
        continue
    src = open(os.path.join(VERIF, 'checks', p['id'].lower() + '.py')).read()
    import ast
    bounds = ''
    for node in ast.walk(ast.parse(src)):
        if isinstance(node, ast.Call) and getattr(node.func, 'id', '') == 'Check':
            for k in node.keywords:
                if k.arg == 'bounds':
                    bounds = ast.literal_eval(k.value)
    checks.append(dict(property=p['id'], quick_cmd='/opt/venv/bin/python check.py %s quick' % p['id'],
                       thorough_cmd='/opt/venv/bin/python check.py %s thorough' % p['id'],
                       technique=TECH, level='other', level_note=NOTE % bounds))
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=NOT_APPLICABLE),
              f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties', len(checks), 'checks')
