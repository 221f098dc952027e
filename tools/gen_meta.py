#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props_text.py (claimed properties) """
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import props_text as P

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P.PROPS:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p.get('over', ['inputs']), text=p['quant']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
checks = []
for p in P.PROPS:
    if p.get('na'):
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py ' + p['id'],
                       thorough_cmd='python3-vt check.py ' + p['id'],
                       technique=p.get('technique', 'contract-based deductive verification of the real functions (pyvc over z3/cvc5)'),
                       level=p.get('level', 'proof'), level_note=p['note']))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks,
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in P.PROPS if p.get('na')],
         notes=P.NOTES)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
