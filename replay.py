#!/usr/bin/env python3
"""replay.py FILE: run the failing input of a replay file on the real code; exit 1 if it still fails"""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('PYVC_REPO', '/repo'))
import registry
d = json.load(open(sys.argv[1]))
if not d.get('failing_input'):
    print('no failing input; undischarged obligations:')
    for f in d['obligations']:
        print('  ', f['obligation'], f['kind'], f['detail'])
    sys.exit(2)
msg = registry.falsifier(d['property']).test(d['failing_input']['case'])
print(msg or 'no failure')
sys.exit(1 if msg else 0)
