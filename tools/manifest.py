#!/usr/bin/env python3
"""write MANIFEST.json from properties.jsonl, the checks present and the tables below"""
import json, os, runpy
V = '/verif'
T = runpy.run_path(V + '/tools/levels.py')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i)) and i in T['CLAIM']:
        tech, note = T['CLAIM'][i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s' % i, 'thorough_cmd': 'python3 run.py %s --thorough' % i,
                       'technique': tech, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': T['NA'].get(i, 'no check built for this property yet')})
m = {'version': 1, 'setup_cmd': 'python3 -m vf.build', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: every check rebuilds clang IR of the library from the current /repo tree and decides obligations on it without running it. No hooks in /repo.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
