"""Check runner: obligations, violations, known findings, evidence."""
import json, os, re, signal, sys, time, traceback
from . import build, ir, interp
from .term import *

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')

CELLS = {'Cell_ECM<0>': 'N5slide8Cell_ECMILm0EEE', 'Cell_ECM<1>': 'N5slide8Cell_ECMILm1EEE', 'Cell_ECM<2>': 'N5slide8Cell_ECMILm2EEE',
         'Cell_SPM': 'N5slide8Cell_SPME'}
PACKS = {'Module_s': 'N5slide8Module_sE', 'Module_p': 'N5slide8Module_pE', 'Battery': 'N5slide7BatteryE'}

COOLS = {'CoolSystem': 'N5slide10CoolSystemE', 'CoolSystem_HVAC': 'N5slide15CoolSystem_HVACE', 'CoolSystem_open': 'N5slide15CoolSystem_openE'}

def bases(cls):
    if cls.startswith('Cell_ECM'): return [demcls(cls), 'Cell', 'StorageUnit']
    if cls.startswith('Cell_'): return [cls, 'Cell_SPM', 'Cell', 'StorageUnit']
    if cls.startswith('Module_'): return [cls, 'Module', 'StorageUnit']
    if cls == 'Battery': return [cls, 'StorageUnit']
    if cls.startswith('CoolSystem'): return [cls, 'CoolSystem']
    return [cls]

def demcls(c): return re.sub(r'<(\d)>', r'<\1ul>', c)

EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.t0 = time.time()
        self.obl = []            # (name, status, detail)
        self.viol = []           # (key, message, where)
        self.analysed = {'functions': set(), 'paths': 0, 'call_sites': 0, 'steps': 0}
        self.assume = []
        self.rule = ''
        self._idx = None

    # -- program access --------------------------------------------------
    def load(self, roots, **kw):
        kw.setdefault('force', ['^slide::', '^auto slide::', '^void slide::', '^double slide::', ' slide::'])
        kw.setdefault('opaque', [r'slide::linInt', 'double slide::linInt'])
        conf = tuple(kw.pop('conf', ())); spec = dict(roots=roots); spec.update(kw)
        p = ir.Prog(build.slir(spec, conf))
        for L in p.byname.values():
            for F in L: self.analysed['functions'].add(F.dem[:160])
        return p

    def index(self):
        if self._idx is None: self._idx = ir.Prog(build.slir(dict(roots=[], index=True)))
        return self._idx

    def find(self, regex, decl=False):
        r = re.compile(regex)
        return [f for f in self.index().index if (decl or not f['decl']) and r.search(f['dem'])]

    def vtabs(self, static='N5slide11StorageUnitE'):
        """{mangled class: [slot symbols]} of every class derived from a static type"""
        r = {}
        for v in self.index().vtables.get('_ZTS' + static, []): r[v['vtable'][4:]] = v['slots']
        return r

    def dems(self):
        if not hasattr(self, '_dems'): self._dems = {f['name']: f['dem'] for f in self.index().index}
        return self._dems

    def impl(self, cls, meth, static='N5slide11StorageUnitE'):
        """symbol that implements a virtual method in a class (its vtable), else a non virtual member of the class or a base"""
        m = {**CELLS, **PACKS, **COOLS}.get(cls, cls)
        if m in COOLS.values(): static = 'N5slide10CoolSystemE'
        for s in self.vtabs(static).get(m, []):
            d = self.dems().get(s, '')
            if re.search(r'::%s\(' % re.escape(meth), d): return s
        for c in bases(cls):
            r = self.find(r'^(?:[\w:<>*& ]+ )?slide::%s::%s\(' % (re.escape(c), re.escape(meth)))
            if r: return r[0]['name']
        return None

    def confs(self):
        """compile-time configurations of the thermal model (only the default one during development)"""
        return ((),) if os.environ.get('VF_DEV') else ((), (('T_MODEL', '1'),), (('T_MODEL', '2'),))

    def roots(self, cls, meths):
        m = {**CELLS, **PACKS, **COOLS}.get(cls, cls); r = []
        for f in meths:
            s = self.impl(cls, f)
            if s: r.append(dict(name=cls + '::' + f, cls=m, fn=s))
            else: self.undecided('%s::%s' % (cls, f), 'no implementation found')
        return r

    def ai(self, F, prog, hooks=None, cls=None, loops=False):
        a = interp.AI(F, prog, hooks or interp.Hooks(), cls=cls)
        if loops: a.run2()
        else: a.run()
        self.analysed['paths'] += len(a.exits); self.analysed['steps'] += a.nsteps
        return a

    # -- verdicts ----------------------------------------------------------
    def ok(self, name, detail=''): self.obl.append((name, 'ok', detail))
    def undecided(self, name, why): self.obl.append((name, 'undecided', why)); 
    def violation(self, key, msg, where=''):
        self.obl.append((key, 'violated', msg)); self.viol.append((key, msg, where))
    def check(self, name, cond, msg, where=''):
        if cond: self.ok(name)
        else: self.violation(name, msg, where)
        return cond

    # -- end ------------------------------------------------------------------
    def known(self):
        r = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
                if m and m.group(1) == self.pid: r[m.group(2)] = m.group(3)
        return r

    def finish(self):
        known = self.known(); rc = 0; nviol = 0
        seen = set(); lines = []
        for key, msg, where in self.viol:
            k = key.replace(' ', '_')
            if k in seen: continue
            seen.add(k)
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k])); continue
            nviol += 1; lines.append('%s\n    rule: %s\n    at: %s\n' % (msg, k, where))
        und = [o for o in self.obl if o[1] == 'undecided']; ok = [o for o in self.obl if o[1] == 'ok']
        for o in und: print('UNDECIDED %s: %s' % (o[0], o[2]))
        if nviol:
            rep = os.path.join(EVID, self.pid + '.violation.txt')
            os.makedirs(os.path.dirname(rep), exist_ok=True)
            open(rep, 'w').write('\n'.join(lines))
            for l in lines: print(l)
            print('VIOLATION property=%s replay=%s' % (self.pid, rep)); rc = 1
        elif not ok and not self.viol:
            print('no obligation of %s could be decided' % self.pid); rc = 2
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': {'explanation': 'static analysis of the clang-18 IR of every library source of /repo (classes resolved through vtables, repository helpers inlined): ' + self.rule,
                           'rule': self.rule, 'obligations': len(self.obl), 'discharged': len(ok), 'undecided': [list(o) for o in und],
                           'functions_analysed': sorted(self.analysed['functions']), 'abstract_exits': self.analysed['paths'], 'block_visits': self.analysed['steps'],
                           'call_sites': self.analysed['call_sites'], 'samples': [list(o) for o in self.obl[:400]]},
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': nviol}
        os.makedirs(os.path.join(EVID), exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.pid + '.json'), 'w'), indent=1)
        print('%s: %d obligations, %d discharged, %d violated, %d undecided (%.1fs)' % (self.pid, len(self.obl), len(ok), len(self.viol), len(und), time.time() - self.t0))
        return rc

def main(argv):
    import importlib.util
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv: tier = 'thorough'
    sys.setrecursionlimit(20000)
    ctx = Ctx(pid, tier)
    def late(*_): raise TimeoutError('analysis time budget used up')
    signal.signal(signal.SIGALRM, late); signal.alarm(800)
    try:
        sp = importlib.util.spec_from_file_location('chk_' + pid, os.path.join(VERIF, 'checks', pid + '.py'))
        m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        m.run(ctx)
    except build.BuildError as e:
        print('ERROR: ' + str(e)); return 2
    except Exception as e:
        # what was decided so far stands; the rest is undecided
        traceback.print_exc(); ctx.undecided('internal', '%s: %s' % (type(e).__name__, e))
    signal.alarm(0)
    return ctx.finish()
