"""Regenerate MANIFEST.json from the check modules and properties.jsonl."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    path = os.path.join(HERE, 'vf', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    v = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ('LEVEL', 'TECH', 'RULE', 'ASSUMPTIONS'):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    note = ('Held on the executions produced, which the evidence file counts; says nothing about others. ' + v['RULE'] +
            (' Assumes: ' + '; '.join(v['ASSUMPTIONS']) + '.' if v['ASSUMPTIONS'] else ''))
    checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s' % p['id'],
                   'thorough_cmd': 'python3 run.py %s --thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': v['TECH'], 'level': v['LEVEL'],
                   'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 run.py --selftest',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every monitor observes the boundary (sockets, serial ports, files, return values) by replacing socket.socket, '
              'serial.Serial and time.sleep in the checking process before the library is imported.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
