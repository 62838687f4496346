#!/usr/bin/env python3
"""compose DESIGN.md from tools/design/*.md, the checks and seeded/"""
import ast, json, os, re, runpy, glob, sys
sys.path.insert(0, '/verif/tools')
V = '/verif/'; D = V + 'tools/design/'
X = runpy.run_path(D + 'extra.py')['X']; L = runpy.run_path(V + 'tools/levels.py'); NA = L['NA']
out = [open(D + 'head.md').read()]
def flat(n):
    if isinstance(n, ast.Constant): return n.value
    if isinstance(n, ast.BinOp): return str(flat(n.left)) + ' % ' + '..'
    if isinstance(n, ast.JoinedStr): return ''.join(flat(v) if isinstance(v, ast.Constant) else '..' for v in n.values)
    return ''
seeds = {}
for m in sorted(glob.glob(V + 'seeded/*/meta.json')):
    j = json.load(open(m)); seeds.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(m)), j))
for l in open(V + 'properties.jsonl'):
    p = json.loads(l); i = p['id']; out.append('### %s %s\n' % (i, p['title']))
    f = V + 'checks/%s.py' % i
    if i in NA or not os.path.exists(f): out.append('*Not claimed.* %s\n' % NA.get(i, 'no check yet')); continue
    t = ast.parse(open(f).read()); d = {}; rule = ''; ass = []
    for n in ast.walk(t):
        if isinstance(n, ast.Assign):
            x = n.targets[0]
            if isinstance(x, ast.Name) and x.id in ('TECH', 'NOTE'): d[x.id] = ast.literal_eval(n.value)
            if isinstance(x, ast.Attribute) and x.attr == 'rule' and not rule: rule = flat(n.value)
            if isinstance(x, ast.Attribute) and x.attr == 'assume' and isinstance(n.value, ast.List): ass = [flat(e) for e in n.value.elts]
    why, lim = X.get(i, ('', ''))
    out.append('* Method: %s.' % d.get('TECH', ''))
    if rule: out.append('* Rule (what is enumerated, against which oracle): %s.' % rule)
    if why: out.append('* Why it reaches what the tests cannot: %s' % why)
    if d.get('NOTE'): out.append('* Decided: %s' % d['NOTE'])
    if lim: out.append('* Notes: %s' % lim)
    if ass: out.append('* Assumes: %s.' % '; '.join(a for a in ass if a))
    for s, j in seeds.get(i, []): out.append('* Planted `%s`: %s. Needs %s. %s' % (s, j['what_it_breaks'], j['needs'], j.get('caught', '')))
    out.append('')
out.append(open(D + 'tail.md').read() if os.path.exists(D + 'tail.md') else '')
open(V + 'DESIGN.md', 'w').write('\n'.join(out))
