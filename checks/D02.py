"""D02: degradation never uses out-of-date mechanical stress."""
TECH = 'typestate analysis of the stress flags over every operation, path conditions of the stress-based models, and loop summaries of the selection in the constructors'
NOTE = ('Every completing path of a model that reads a stress is shown to be conditioned on the flag of that same stress; the time step recomputes each needed stress between the last concentration change and the degradation models; '
        'every other operation that changes a concentration or the temperature clears both flags on every exit; the constructors set the need flags for every selected stress-based model. The stress formulas themselves are not checked.')
from vf.core import *
from vf.interp import Hooks
from vf.loops import Loops, method
from vf.ageing import Mech, MECH, CLS
from vf.dtab import Paths
from vf import term as T, pit
from checks_util import other
C08 = other('C08'); D04 = other('D04')

STRESS = {'dai': ('s_dai_p', 's_dai_n'), 'lares': ('s_lares_n',)}

def run(ctx):
    ctx.rule = ('a path on which a contribution depends on a stress value has the flag of that stress known to be set; the flag is set only by the function that recomputes the stress; operations that change z or T leave with the flag cleared or recomputed afterwards; '
                'need flag set => stress recomputed before the degradation models run; selected identifier => need flag set by the constructors')
    ctx.assume = ['cells are built through the constructors of the library']
    P = ctx.load(ctx.roots('Cell_SPM', ['getOCV'])); off = {}
    for n in ('s_dai', 's_lares', 's_dai_update', 's_lares_update', 's_dai_p', 's_dai_n', 's_lares_n'):
        f = P.field(CLS, 'sparam.' + n)
        if f is None: ctx.undecided('StressParam', 'field %s not found' % n); return
        off[n] = f[0]
    ix = D04.index(ctx)
    if ix is None: ctx.undecided('State_SPM', 'index'); return
    for m in ('SEI', 'CS', 'LAM', 'LiPlating'): models(ctx, m, off)
    fresh(ctx, off)
    step(ctx, off, ix)
    effects(ctx, off, ix)
    ctors(ctx, off)

def models(ctx, name, off):
    n = 'Cell_SPM::' + name; m = Mech(ctx, name)
    if not m.ok: ctx.undecided(n, m.why); return
    a, F, L = m.a, m.F, m.L
    sites = []
    if m.h is None: sites = [(e['st'], topoly(e['val']), F.loc(e['I'])) for e in m.rets]
    else:
        for l in F.loops[m.h]['latches']:
            for st in a.edges.get((l, m.h), []):
                for x in {x for e in m.rets for o, v in m.outs(e).items() for x in m.acc(v)}:
                    sites.append((st, sub(m.upd(st, l, x), atom(x)), F.loc(F.blocks[l][-1])))
        for e in m.rets:
            for o, v in m.outs(e).items(): sites.append((e['st'], topoly(v), F.loc(e['I'])))
    for st, v, where in sites:
        us = {T_: s for s, fs in STRESS.items() for T_ in fs if A(('E', m.th, off[T_])) in T.atoms(v)}
        for s in set(us.values()):
            fl = 's_%s_update' % s
            q = a.query(st, rel(atom(('E', m.th, off[fl])), ZERO, EQ, 7))
            key = '%s uses %s' % (n, s)
            if q is False: ctx.ok(key)
            else: ctx.violation(key, '%s: a contribution uses the stress %s on a path that has not checked %s' % (n, s, fl), where)
        if not us: ctx.ok('%s path without stress' % n)

def fresh(ctx, off):
    """only the recomputation sets a flag, after storing the stress"""
    for s, meth in (('dai', 'updateDaiStress'), ('lares', 'updateLaresgoitiStress')):
        n = 'Cell_SPM::' + meth
        P = ctx.load(ctx.roots('Cell_SPM', [meth]), never=[r'Cell_SPM::get(Dai|Laresgoiti)Stress\('])
        F = P.fn(n)
        if F is None: continue
        class H(Hooks):
            def call(self, ai, st, I, callee, args):
                if re.search(r'get(Dai|Laresgoiti)Stress$', callee.split('(')[0]):
                    r = st.clone()
                    for x in args[1:]:
                        if x[0] == 'ptr': ai.store(r, x, atom(('call', I['id'], callee)), 8, I)
                    res = [(r, atom(('call', I['id'], callee)), 'ret')]
                    if I['op'] == 'invoke': res.append((st.clone(), None, 'unw'))
                    return res
        a = ctx.ai(F, P, H(), CLS); th = a.this
        for e in a.exits:
            u = a.read(e['st'], th, off['s_%s_update' % s]); new = [f for f in STRESS[s] if any(AT[x][0] in ('call', 'hv') for x in T.atoms(topoly(a.read(e['st'], th, off[f]))))]
            if e['kind'] == 'ret':
                key = n + ' marks the stress up to date'
                if T_one(u) and len(new) == len(STRESS[s]): ctx.ok(key)
                elif T_one(u): ctx.violation(key, '%s marks the stress as up to date without storing a new value of %s' % (n, ', '.join(f for f in STRESS[s] if f not in new)), F.loc(e['I']))
                else: ctx.violation(key, '%s returns without marking the recomputed stress as up to date' % n, F.loc(e['I']))
            for o in STRESS:
                if o != s and a.read(e['st'], th, off['s_%s_update' % o]) != atom(('E', th, off['s_%s_update' % o])):
                    ctx.violation(n + ' other flag', '%s changes the flag of the other stress' % n, F.loc(e['I']))

def T_one(u):
    u = topoly(u) if u[0] != 'B' else u
    return u in (ONE, TRUE) or u == const(1)

# ---- the time step: recomputed between the last change and the models -----------
class HT(Hooks):
    K = 48
    def __init__(self, off, ix): self.off, self.ix = off, ix
    def call(self, ai, st, I, callee, args):
        m = method(callee)
        if not (args and args[0] == ('ptr', ai.this, ZERO)): return None
        if m in ('updateDaiStress', 'updateLaresgoitiStress'):
            s = 'dai' if 'Dai' in m else 'lares'
            r = st.clone(); r.ps = tuple(sorted(set(st.ps) | {s})); ai.store(r, ('ptr', ai.this, const(self.off['s_%s_update' % s])), ONE, 1, I)
            for f in STRESS[s]: ai.store(r, ('ptr', ai.this, const(self.off[f])), atom(('call', I['id'], callee)), 8, I)
            res = [(r, None, 'ret')]
            if I['op'] == 'invoke': res.append((st.clone(), None, 'unw'))
            return res
        if m in ('V', 'dState_thermal', 'thermalModel', 'getThermalSurface'):
            r = st.clone()
            if m == 'dState_thermal': ai.store(r, [a for a in args[1:] if a[0] == 'ptr'][0], atom(('out', 'dQgen')), 8, I)
            res = [(r, atom(('call', I['id'], callee)), 'ret')]
            if I['op'] == 'invoke': res.append((st.clone(), None, 'unw'))
            return res
        if m in ('dState_degradation', 'dState_diffusion'):
            r = st.clone(); p = [a for a in args[1:] if a[0] == 'ptr'][0]
            if p[0] == 'ptr' and is_const(p[2]):
                for i in range(self.ix['n']): ai.store(r, ('ptr', p[1], const(int(cval(p[2])) + 8 * i)), atom((m, i)), 8, I)
            res = [(r, None, 'ret')]
            if I['op'] == 'invoke': res.append((st.clone(), None, 'unw'))
            return res
        return None
    def store(self, ai, st, base, off, size, val, I):
        if base != ai.this: return
        zs = [self.ix['by'].get('T', -1)] + [i for i, n in self.ix.items() if isinstance(i, int) and isinstance(n, str) and n.startswith('z')]
        if isinstance(off, (int, float)):
            i = (off - self.ix['st']) // 8
            if i in zs and not (val is not None and topoly(val) == ai.default(base, int(off))): st.ps = ()
        else:
            k = int(dict(off[1]).get((), 0.0)); lo, hi = ai.span(st, base, off, size)
            if any(lo < self.ix['st'] + 8 * i + 8 and self.ix['st'] + 8 * i < hi for i in zs): st.ps = ()

def step(ctx, off, ix):
    n = 'Cell_SPM::timeStep_CC'
    P = ctx.load(ctx.roots('Cell_SPM', ['timeStep_CC']), never=[r'slide::Cell_SPM::(V|dState_[a-z]+|thermalModel[A-Za-z_]*|update[A-Za-z]+Stress)\('], unroll=True)
    F = P.fn(n); h = HT(off, ix); a = ctx.ai(F, P, h, CLS, loops=True); L = Loops(a); th = a.this
    cnt = 0
    for I, st, args in a.sites:
        if I['op'] not in ('call', 'invoke') or method(I.get('dem') or '') != 'dState_degradation' or not (args and args[0] == ('ptr', th, ZERO)): continue
        cnt += 1
        for s in STRESS:
            need = a.query(st, rel(atom(('E', th, off['s_' + s])), ZERO, EQ, 7))
            key = '%s recomputes %s before the models' % (n, s)
            if s in st.ps: ctx.ok(key)
            elif need is True: ctx.ok('%s does not need %s' % (n, s))
            else: ctx.violation(key, 'the degradation models are evaluated on a path where the stress %s is needed but was not recomputed after the last change of the concentrations' % s, F.loc(I))
    if not cnt: ctx.undecided(n, 'evaluation of the degradation models not found')
    flags(ctx, a, n, F, off, ix, L)

def cleared(L, v, depth=0):
    """True: the flag is zero, False: it may be set, None: unknown"""
    v = topoly(v) if v[0] != 'B' else v
    if v in (ZERO, FALSE): return True
    x = as_atom(v) if v[0] == 'P' else None
    if x is not None and AT[x][0] in ('jm', 'j') and L is not None and depth < 4:
        c = L.carried(x)
        if c and c[1] and c[1]['upd'] and all(cleared(L, u, depth + 1) is True or u == v for u in c[1]['upd']): return True
    if T_one(v): return False
    return None

def flags(ctx, a, n, F, off, ix, L=None):
    th = a.this
    for e in a.exits:
        w = a.changed(e['st'], th)
        ch = [nm for lo, hi, why in w for i, nm in ix.items() if isinstance(i, int) and (nm == 'T' or nm.startswith('z')) and lo < ix['st'] + 8 * i + 8 and ix['st'] + 8 * i < hi]
        if not ch: ctx.ok(n + ' keeps concentrations and temperature'); continue
        for s in STRESS:
            v = a.read(e['st'], th, off['s_%s_update' % s]); key = '%s marks %s out of date' % (n, s); q = cleared(L, v)
            if q is True or s in e['st'].ps: ctx.ok(key)
            elif L is not None and not_entered(a, F, L, w, ix, v, off['s_%s_update' % s]): ctx.ok(key)
            elif topoly(v) == atom(('E', th, off['s_%s_update' % s])) or q is False:
                ctx.violation(key, '%s changes %s but leaves the stress %s marked as up to date' % (n, ', '.join(sorted(set(ch))[:3]), s), F.loc(e['I']))
            else: ctx.undecided(key, 'flag value %s' % show(v)[:100])

def not_entered(a, F, L, w, ix, v, o):
    """the flag still has its entry value, which no completed iteration leaves: the loop that carries the changed values was left before its first iteration"""
    if topoly(v) != atom(('E', a.this, o)): return False
    hs = set()
    for lo, hi, why in w:
        if not any(isinstance(i, int) and (nm == 'T' or nm.startswith('z')) and lo < ix['st'] + 8 * i + 8 and ix['st'] + 8 * i < hi for i, nm in ix.items()): continue
        x = as_atom(topoly(why)) if isinstance(why, tuple) and why and why[0] == 'P' else None
        if x is None or AT[x][0] not in ('jm', 'j'): return False
        c = L.carried(x)
        if not c: return False
        hs.add(c[0])
    return bool(hs) and all(cleared(L, a.read(st, a.this, o)) is True for h in hs for l in F.loops[h]['latches'] for st in a.edges.get((l, h), []))

class HE(HT):
    K = 12

def effects(ctx, off, ix):
    m = CELLS['Cell_SPM']; seen = set(); rs = []
    for f in ctx.find(r'^(?:[\w:<>*&, ]+ )?slide::(Cell_SPM|Cell|StorageUnit)::~?\w+\('):
        d = f['dem']; mm = re.search(r'slide::(?:Cell_SPM|Cell|StorageUnit)::(~?\w+)\(', d)
        if not mm or '~' in mm.group(1) or d.endswith('const') or '$_' in d or f['name'] in seen: continue
        meth = mm.group(1)
        if re.match(r'Cell_\w+$|Cell$|StorageUnit$', meth) or meth == 'timeStep_CC': continue
        if 'slide::Cell_SPM::' not in d and any(('slide::Cell_SPM::' + meth + '(') in ctx.dems().get(s, '') for s in ctx.vtabs().get(m, [])): continue
        seen.add(f['name']); rs.append(dict(name='Cell_SPM::' + meth + '@' + f['name'], cls=m, fn=f['name']))
    P = ctx.load(rs, unroll=True)
    for r in rs:
        F = P.fn(r['name']); n = r['name'].split('@')[0]
        if F is None or F.this is None or method(n) in ('updateDaiStress', 'updateLaresgoitiStress'): continue
        a = ctx.ai(F, P, HE(off, ix), CLS)
        flags(ctx, a, n, F, off, ix)
        for e in a.exits:
            for s in STRESS:
                v = a.read(e['st'], a.this, off['s_%s_update' % s])
                if T_one(v): ctx.violation(n + ' sets flag', '%s marks the stress %s as up to date without recomputing it' % (n, s), F.loc(e['I'])) if s not in e['st'].ps else None

# ---- constructors: selected => needed ----------------------------------------------
NEED = [('CS_id', 2, 's_dai'), ('LAM_id', 1, 's_dai'), ('CS_id', 1, 's_lares')]

def ctors(ctx, off):
    for f in ctx.find(r'^slide::Cell_\w+::Cell_\w+\(.*DEG_ID'):
        n = re.sub(r'\(.*', '', f['dem'])
        P = ctx.load([dict(name='ctor', cls=CELLS['Cell_SPM'], fn=f['name'])], force=[r'slide::(DEG_ID|SmallVector)'], never=[r'::Cell_\w+\('])
        F = P.fn('ctor')
        class H(Paths): K = 64; collect = True
        a = ctx.ai(F, P, H(), CLS, loops=True); L = Loops(a); th = a.this
        deg = P.field(CLS, 'deg_id')[0]
        for lst, k, fl in NEED:
            lo = deg + P.field('slide::DEG_ID', lst)[0]; key = '%s %s %d needs %s' % (n, lst, k, fl)
            vs = {topoly(a.read(e['st'], th, off[fl])) for e in a.exits if e['kind'] == 'ret'}
            res = [implied(L, a, F, th, v, lo, k) for v in vs]
            if all(r is True for r in res) and res: ctx.ok(key)
            elif any(r is False for r in res): ctx.violation(key, '%s: %s is not set when model %d is among %s' % (n, fl, k, lst), f.get('file', '') or '')
            else: ctx.undecided(key, 'flag %s' % [show(v)[:80] for v in vs])

def implied(L, a, F, th, v, lo, k, depth=0):
    """is the flag set if an entry of the list equals k?"""
    x = as_atom(v)
    if depth > 6: return None
    if x is None or AT[x][0] not in ('jm', 'j'):
        if is_const(v): return bool(cval(v))
        return False if AT.__getitem__(x)[0] in ('E', 'hv', 'glob') else None
    c = L.carried(x)
    if not c or not c[1]: return None
    h, inf = c
    mine = False
    for l in F.loops[h]['latches']:
        for st in a.edges.get((l, h), []):
            u = next(iter({a.read(st, AT[x][1], AT[x][2])})) if AT[x][0] == 'jm' else None
            if u is None: return None
            ids = [y for y in (set(T.atoms(u)) if u[0] == 'P' else set(batoms(u))) if AT[y][0] == 'E' and AT[AT[y][1]][0] == 'j']
            lists = set()
            for y in ids:
                ph = L.phis.get((AT[AT[y][1]][1], AT[AT[y][1]][2]))
                for i in ph['init']:
                    d = sub(topoly(i), topoly(('ptr', th, ZERO)))
                    if is_const(d): lists.add(cval(d))
            on = {}
            for old in (0.0, 1.0):
                for idv in range(0, 8):
                    e = pit.Env(1, None, {x: old, **{y: float(idv) for y in ids}})
                    try: r = pit.evb(u, e) if u[0] == 'B' else bool(pit.ev(u, e))
                    except pit.Undef: return None
                    if old and not r: return False      # forgets what was found before
                    on[(old, idv)] = r
            if any(lo <= q < lo + 10 for q in lists) and on.get((0.0, k)): mine = True
    if mine: return True
    rs = [implied(L, a, F, th, topoly(i), lo, k, depth + 1) if i[0] != 'B' else None for i in inf['init']]
    if all(r is True for r in rs) and rs: return True
    return False if any(r is False for r in rs) else None

def batoms(b):
    out = set()
    def g(x):
        if isinstance(x, tuple):
            if x and x[0] == 'P' and len(x) == 2: out.update(T.atoms(x)); return
            for y in x: g(y)
    g(b); return out
