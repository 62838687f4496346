"""G05: every documented setting gives a program that type-checks (front-end only: nothing is generated or run)."""
TECH = 'type checking of every documented configuration with the compiler front end (compile-time witness)'
NOTE = 'Every source of the library and a witness that instantiates the templates is type-checked under each documented setting value (single settings in the quick tier, pairs as well in the thorough tier).'
import itertools, json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from vf.core import *
from vf import build as B

CONF = [('DATASTORE_CELL', ['cellDataStorageLevel::' + x for x in ('noStorage', 'storeCumulativeData', 'storeHistogramData', 'storeTimeData')]),
        ('DATASTORE_MODULE', ['moduleDataStorageLevel::' + x for x in ('noStorage', 'storeCumulativeData', 'storeTimeData')]),
        ('DATASTORE_COOL', list('012')), ('DATASTORE_BATT', list('012')), ('T_MODEL', list('012')), ('isParallel', ['true', 'false']),
        ('printNumIterations', ['true', 'false']), ('verbose', list('01234567')), ('overwrite_data', ['true', 'false']),
        ('CVcurrentFindingMethod', ['CVcurrentAlgorithm::falsePosition', 'CVcurrentAlgorithm::linearSearch'])]

setv = B.setv

def run(ctx):
    ctx.rule = ('for every documented value of every compile-time setting (one changed at a time; thorough: every pair) each translation unit of the library and a witness that instantiates every '
                'template of the library is parsed, instantiated and type-checked by clang with settings.hpp overlaid; any diagnostic of severity error is a violation')
    ctx.assume = ['clang 18 front end decides what compiles', 'documented values are those in settings.hpp and enum_definitions.hpp']
    S = os.path.join(B.REPO, 'src/settings/settings.hpp')
    if not os.path.exists(S): ctx.undecided('settings.hpp', 'not found'); return
    text = open(S).read(); L = B.compile_commands(); allI = sorted({i for l in L.values() for i in l})
    d = tempfile.mkdtemp(prefix='g05.', dir=B.BUILD)
    try:
        wf = os.path.join(d, 'witness.cpp'); B.witness(wf, [B.clang(), '-std=c++20', '-w', '-I' + os.path.join(B.REPO, 'src')] + allI)
        single = []; cur = {}
        for n, vs in CONF:
            if setv(text, n, vs[0]) is None: ctx.undecided('setting ' + n, 'definition not recognised in settings.hpp'); continue
            for v in vs:
                if setv(text, n, v) == text: cur[n] = v
                else: single.append(((n, v),))
        confs = [((),)] if False else [()] + single
        if ctx.tier != 'thorough':    # the two extremes of the message level and one of each other value
            confs = [c for c in confs if not (c and c[0][0] == 'verbose' and c[0][1] not in '07')]
        jobs = []
        def over(c, i):
            t = text
            for n, v in c: t = setv(t, n, v)
            p = os.path.join(d, 's%d.hpp' % i); open(p, 'w').write(t)
            y = os.path.join(d, 'o%d.yaml' % i)
            json.dump({'version': 0, 'roots': [{'type': 'file', 'name': S, 'external-contents': p}]}, open(y, 'w'))
            return y
        cc = B.clang(); i = 0
        for c in confs:
            y = over(c, i); i += 1
            for f in [wf] + sorted(L):
                jobs.append((c, f, [cc, '-std=c++20', '-fsyntax-only', '-w', '-ferror-limit=3', '-ivfsoverlay', y, '-I' + os.path.join(B.REPO, 'src')] + (L.get(f) or allI) + [f]))
        if ctx.tier == 'thorough':    # all pairs, through one unit that contains the whole library
            uni = os.path.join(d, 'unity.cpp')
            open(uni, 'w').write(''.join('#include "%s"\n' % f for f in sorted(L)) + '#include "%s"\n' % wf)
            y = over((), i); i += 1
            mk = lambda y: [cc, '-std=c++20', '-fsyntax-only', '-w', '-ferror-limit=3', '-ivfsoverlay', y, '-I' + os.path.join(B.REPO, 'src')] + allI + [uni]
            if subprocess.run(mk(y), capture_output=True).returncode == 0:
                for a, b in itertools.combinations([s[0] for s in single if not (s[0][0] == 'verbose' and s[0][1] not in '07')], 2):
                    if a[0] != b[0]: jobs.append(((a, b), uni, mk(over((a, b), i)))); i += 1
            else: ctx.undecided('pairs', 'the library does not compile as one unit')
        base_bad = set()
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            res = list(ex.map(lambda j: (j, subprocess.run(j[2], capture_output=True, text=True)), jobs))
        for (c, f, cmd), p in res:
            if c == () and p.returncode: raise B.BuildError('the current configuration does not compile: %s\n%s' % (f, p.stderr[-1500:]))
        for (c, f, cmd), p in res:
            nm = ' '.join('%s=%s' % x for x in c) or 'as configured'
            fn = os.path.relpath(f, B.REPO) if f.startswith(B.REPO) else os.path.basename(f)
            ctx.analysed['steps'] += 1
            if p.returncode == 0: ctx.ok('%s: %s' % (nm, fn))
            else:
                er = [l for l in p.stderr.split('\n') if 'error:' in l][:2]
                ctx.violation('setting ' + nm, 'with %s the library does not compile: %s' % (nm, ' | '.join(er)), er[0].split(': ')[0] if er else fn)
    finally:
        shutil.rmtree(d, ignore_errors=True)
