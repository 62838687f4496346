#!/usr/bin/env python3
"""create /verif/seeded/<id> from a python description file: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new[, count])], DEMO (C++), optional SH"""
import sys, os, json, subprocess, runpy, shutil
for f in sys.argv[1:]:
    d = runpy.run_path(f); sid = d['ID']; S = '/verif/seeded/' + sid; os.makedirs(S, exist_ok=True)
    sc = '/tmp/nb'
    if not os.path.exists(sc): subprocess.check_call(['git', 'clone', '-q', '/repo', sc])
    subprocess.check_call('cd %s && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % sc, shell=True)
    for e in d['EDITS']:
        p = os.path.join(sc, e[0]); s = open(p, newline='').read()
        old, new = e[1], e[2]
        if '\r\n' in s: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        assert s.count(old) >= 1, (sid, e[0], 'old text not found', e[1][:60])
        assert s.count(old) == 1 or len(e) > 3, (sid, e[0], 'ambiguous', s.count(old))
        if len(e) > 3 and e[3]:
            parts = s.split(old); k = e[3]; s = old.join(parts[:k]) + new + old.join(parts[k:])
        else: s = s.replace(old, new)
        open(p, 'w', newline='').write(s)
    diff = subprocess.check_output(['git', '-C', sc, 'diff'])
    open(S + '/patch.diff', 'wb').write(diff)
    open(S + '/demo.cpp', 'w').write(d['DEMO'])
    shutil.copy('/verif/tools/demo_template.sh', S + '/demo.sh') if 'SH' not in d else open(S + '/demo.sh', 'w').write(d['SH'])
    json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(S + '/meta.json', 'w'), indent=1)
    # lines of the original repository must change
    mine = set(subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H', '4d2d660..HEAD'], text=True).split())
    orig = 0
    for e in d['EDITS']:
        bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '-s', 'HEAD', '--', e[0]], text=True, errors='replace').splitlines()
        now = open(os.path.join(sc, e[0]), errors='replace').read().splitlines(); import difflib
        old_ = [l.split(') ', 1)[1] if ') ' in l else '' for l in bl]
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, old_, now, autojunk=False).get_opcodes():
            if tag in ('replace', 'delete'): orig += sum(1 for k in range(i1, i2) if bl[k].split()[0].lstrip('^') not in {m[:len(bl[k].split()[0].lstrip('^'))] for m in mine})
    print(sid, len(diff), 'ORIGINAL LINES CHANGED: %d' % orig, '' if orig else '<<<<<<<< NONE')
