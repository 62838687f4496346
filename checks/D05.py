"""D05: heat collected between thermal updates is used exactly once."""
TECH = 'abstract interpretation of the thermal balances in all thermal models (every exit, including errors), exception-type analysis and effect analysis of all other operations'
NOTE = ('For each of the three compile-time thermal models every exit of the balance of a cell and of a pack, normal or by an error, is shown to leave the collected heat and time at zero; the lifetime total grows by exactly the heat collected before; '
        'no other operation of the cell changes these three quantities except the time step. The errors a balance can raise are shown to be of the type its handler catches.')
from vf.core import *
from vf.interp import Hooks
from vf.loops import Loops, method
from vf.dtab import Paths
from vf import term as T, pit
from checks_util import other
C08 = other('C08')

def run(ctx):
    ctx.rule = ('on every exit of thermalModel (T_MODEL 0, 1, 2): collected heat = collected time = 0, and for cells total = total + heat collected at entry; the new temperature depends on both when a thermal model is selected; '
                'all other member functions but timeStep_CC leave the three quantities unchanged; errors raised inside are of a type the handler catches')
    ctx.assume = ['real arithmetic', 'output to streams does not fail', 'a child balanced by a pack does not change the pack (G02)']
    for conf in ctx.confs():
        cell(ctx, conf); pack(ctx, conf)
    effects(ctx)

def tag(conf): return 'T_MODEL ' + dict(conf).get('T_MODEL', '0')

class H(Paths):
    K = 64; collect = True
    def call(self, ai, st, I, callee, args):
        m = method(callee)
        if ('slide::' in callee) and m in ('thermalModel', 'T', 'getThermalSurface', 'getH', 'dstate', 'setT', 'V', 'I', 'getLosses'):
            r = [(st.clone(), atom(('call', I['id'], callee)), 'ret')]
            if I['op'] == 'invoke':
                u = st.clone(); u.exc = '_ZTIi'; r.append((u, None, 'unw'))
            return r
        return None
    def key(self, ai, st, blk): return None
    exitkey = lambda self, ai, st: None

def load(ctx, k, conf):
    return ctx.load(ctx.roots(k, ['thermalModel']), never=[r'slide::CoolSystem[A-Za-z_]*::', r'slide::(Module[a-z_]*|StorageUnit)::(setT|V|I|T|getThermalSurface|getFullID)\('], conf=conf)

def cell(ctx, conf):
    n = 'Cell_SPM::thermalModel'; CLS = 'slide::Cell_SPM'; t = tag(conf)
    P = load(ctx, 'Cell_SPM', conf); F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    a = ctx.ai(F, P, H(), CLS, loops=True); L = Loops(a); th = a.this
    o = {}
    for x in ('Therm_Qgen', 'Therm_Qgentot', 'Therm_time'):
        f = P.field(CLS, x)
        if f is None: ctx.undecided(n, '%s not found' % x); return
        o[x] = f[0]
    E = lambda x: atom(('E', th, o[x]))
    if not a.exits: ctx.undecided(n, 'no exit'); return
    for e in a.exits:
        how = 'on success' if e['kind'] == 'ret' else 'on an error'
        for x in ('Therm_Qgen', 'Therm_time'):
            v = topoly(a.read(e['st'], th, o[x])); key = '%s (%s) resets %s %s' % (n, t, x, how)
            if v == ZERO: ctx.ok(key)
            elif C08.foreign(v, th): ctx.undecided(key, show(v)[:100])
            else: ctx.violation(key, '%s (%s) leaves %s at %s %s' % (n, t, x, show(v)[:80], how), F.loc(e['I']))
        v = topoly(a.read(e['st'], th, o['Therm_Qgentot'])); w = add(E('Therm_Qgentot'), E('Therm_Qgen')); key = '%s (%s) lifetime heat %s' % (n, t, how)
        if C08.close(sub(v, w)) or pit.equal(v, w): ctx.ok(key)
        elif C08.foreign(sub(v, w), th): ctx.undecided(key, show(v)[:100])
        else: ctx.violation(key, '%s (%s) changes the lifetime heat by %s instead of the collected heat %s' % (n, t, show(sub(v, E('Therm_Qgentot')))[:100], how), F.loc(e['I']))
        if e['kind'] == 'ret' and t != 'T_MODEL 0':
            dep = deep(L, e['val'])
            for x in ('Therm_Qgen', 'Therm_time'):
                key = '%s (%s) uses %s' % (n, t, x)
                if A(('E', th, o[x])) in dep: ctx.ok(key)
                elif any(AT[y][0] in ('hv', 'undef') for y in dep): ctx.undecided(key, show(e['val'])[:120])
                else: ctx.violation(key, '%s (%s): the new temperature does not depend on %s' % (n, t, x), F.loc(e['I']))

def deep(L, v, seen=None):
    """all atoms a value depends on, through loops"""
    seen = set() if seen is None else seen
    for x in T.atoms(topoly(v)):
        if x in seen: continue
        seen.add(x)
        c = L.carried(x) if AT[x][0] in ('j', 'jm') else None
        if c and c[1]:
            for y in list(c[1]['init']) + list(c[1]['upd']):
                if y[0] != 'B': deep(L, y, seen)
    return seen

def pack(ctx, conf):
    t = tag(conf)
    for k in ('Module_s', 'Module_p'):
        n = k + '::thermalModel'; cls = 'slide::' + k
        P = load(ctx, k, conf); F = P.fn(n)
        if F is None: ctx.undecided(n, 'not found'); continue
        a = ctx.ai(F, P, H(), cls, loops=True); th = a.this
        o = {x: P.field(cls, 'therm.' + x)[0] for x in ('time', 'Qcontact')}
        for e in a.exits:
            how = 'on success' if e['kind'] == 'ret' else 'on an error'
            if e['kind'] != 'ret':
                key = '%s (%s) error type' % (n, t)
            for x in o:
                v = topoly(a.read(e['st'], th, o[x])); key = '%s (%s) resets %s %s' % (n, t, x, how)
                if v == ZERO: ctx.ok(key)
                elif C08.foreign(v, th): ctx.undecided(key, show(v)[:100])
                else: ctx.violation(key, '%s (%s) leaves therm.%s at %s %s' % (n, t, x, show(v)[:80], how), F.loc(e['I']))
        if t == 'T_MODEL 2':
            ds = [(I, st, args) for I, st, args in a.sites if I['op'] in ('call', 'invoke') and method(I.get('dem') or '') == 'dstate']
            for I, st, args in ds:
                L = Loops(a)
                for i in (1, 2):
                    key = '%s (%s) contact heat reaches the coolant, argument %d' % (n, t, i); c = share(L, args[i], A(('E', th, o['Qcontact'])), o['Qcontact'])
                    if c == {1}: ctx.ok(key)
                    elif c is None: ctx.undecided(key, show(args[i])[:120])
                    else: ctx.violation(key, '%s (%s): the heat of the contact resistances is not part of the heat given to the cooling system' % (n, t), F.loc(I))
            if not ds: ctx.undecided(n, 'heat given to the cooling system not found')
    throws(ctx, conf)

def share(L, v, x, off, seen=()):
    """the factors with which the value v can contain x (the entry value of a field of the pack), through joins and sums collected in loops; None: not known"""
    v = topoly(v); c = {0}
    if v[0] != 'P': return None
    plus = lambda a, b: None if a is None or b is None else {p + q for p in a for q in b}
    for m, k in v[1]:
        k = float(k)
        if m == ((x, 1),): c = plus(c, {k}); continue
        if len(m) == 1 and m[0][1] == 1:
            y = m[0][0]; t = AT[y]
            if t[0] in ('j', 'jm'):
                if y in seen: return None
                q = L.carried(y)
                if q and q[1]:
                    r = set()
                    for t in q[1]['init']:
                        z = share(L, t, x, off, seen + (y,)); r = None if r is None or z is None else r | z
                    for t in q[1]['upd']:
                        if A_of(t) == y: continue
                        d = topoly(t)
                        z = grow(L, y, d, x, off, seen)
                        if z != {0}: return None if z is None else {2.0}
                elif t[0] == 'j': r = share_ir(L.ai.F, t[2], off, {}, L.ai.F.args)
                else: r = None
                c = plus(c, None if r is None else {k * z for z in r}); continue
            if t[0] == 'sel':
                if mentions(t[1], x): return None
                a, b = share(L, t[2], x, off, seen), share(L, t[3], x, off, seen)
                c = plus(c, None if a is None or b is None else {k * z for z in a | b}); continue
        for y, _ in m:
            if x == y or x in deep(L, atom(AT[y])): return None
        if c is None: return None
    return c

def A_of(t):
    p = topoly(t)
    return p[1][0][0][0][0] if p[0] == 'P' and len(p[1]) == 1 and p[1][0][1] == 1 and len(p[1][0][0]) == 1 and p[1][0][0][0][1] == 1 else None

def grow(L, y, d, x, off, seen):
    """what one repetition adds"""
    z = sub(d, atom(AT[y]))
    if y not in T.atoms(z): return share(L, z, x, off, seen + (y,))
    w = A_of(d)   # a join within the body: follow the instructions, the value carried around counts as nothing added
    if w is not None and AT[w][0] == 'j': return share_ir(L.ai.F, AT[w][2], off, {AT[y][2]: {0}} if AT[y][0] == 'j' else {}, L.ai.F.args)
    return None

def mentions(c, x):
    if isinstance(c, tuple): return any(mentions(y, x) for y in c)
    if isinstance(c, int) and not isinstance(c, bool): return c == x
    return False

def share_ir(F, v, off, memo, args):
    """the same on the instructions: v an instruction number"""
    if v in memo: return memo[v]
    if v not in F.ins: return {0}
    I = F.ins[v]; op = I['op']; memo[v] = None
    g = lambda o: share_ir(F, o[1], off, memo, args) if o[0] == 'v' else {0}
    if op == 'phi':
        memo[v] = set(); r = set()
        for o, b in I['in']:
            z = g(o)
            if z is None: r = None; break
            r |= z
    elif op in ('fadd', 'fsub'):
        a, b = g(I['ops'][0]), g(I['ops'][1]); r = None if a is None or b is None else {p + (q if op == 'fadd' else -q) for p in a for q in b}
    elif op == 'select':
        a, b = g(I['ops'][1]), g(I['ops'][2]); r = None if a is None or b is None else a | b
    elif op == 'load':
        o = I['ops'][0]; G = F.ins.get(o[1]) if o[0] == 'v' else None
        r = {1} if G and G['op'] == 'getelementptr' and G.get('base') == ['v', F.args[0]['id']] and G.get('off') == off and not G.get('var') else {0}
    elif op in ('fmul', 'fdiv', 'fneg'):
        r = {0} if all(g(o) in ({0}, set()) for o in I['ops']) else None
    elif op == 'call':
        r = {0} if all(g(o) in ({0}, set()) for o in I.get('args', []) if o[0] == 'v') else None
    else: r = {0}
    memo[v] = r; return r

def throws(ctx, conf):
    """the types of the errors raised by anything a pack calls within its balance"""
    t = tag(conf)
    for k, meths in [(c, ['thermalModel']) for c in list(CELLS) + list(PACKS)] + [(c, ['dstate', 'getH']) for c in COOLS] + [(c, ['setT']) for c in list(CELLS) + list(PACKS)]:
        kw = dict(opaque=[r'slide::Module::', r'slide::StorageUnit::'], force=[r'^slide::Battery::']) if k == 'Battery' else {}
        for m in meths:
            if not ctx.impl(k, m): continue
            P = ctx.load(ctx.roots(k, [m]), conf=conf, **(kw or dict(never=[r'slide::CoolSystem[A-Za-z_]*::(setT|dstate|getH)\('] if m == 'thermalModel' else []))); F = P.fn(k + '::' + m)
            if F is None: continue
            a = ctx.ai(F, P, H(), 'slide::' + k)
            for e in a.exits:
                if e['kind'] != 'throw': continue
                key = '%s::%s (%s) error type' % (k, m, t)
                if e['st'].exc == '_ZTIi': ctx.ok(key)
                elif e['st'].exc is None: ctx.undecided(key, 'type of an error not known at %s' % F.loc(e['I']))
                else: ctx.violation(key, '%s::%s raises an error of type %s, which the pack that called it does not take for a failed balance' % (k, m, e['st'].exc), F.loc(e['I']))

# ---- nobody else touches the collected heat -----------------------------------------
class HE(Hooks): K = 8

def effects(ctx):
    CLS = 'slide::Cell_SPM'; m = CELLS['Cell_SPM']; rs = []; seen = set()
    for f in ctx.find(r'^(?:[\w:<>*&, ]+ )?slide::(Cell_SPM|Cell|StorageUnit)::~?\w+\('):
        d = f['dem']; mm = re.search(r'slide::(?:Cell_SPM|Cell|StorageUnit)::(~?\w+)\(', d)
        if not mm or '~' in mm.group(1) or d.endswith('const') or '$_' in d or f['name'] in seen: continue
        meth = mm.group(1)
        if re.match(r'Cell_\w+$|Cell$|StorageUnit$', meth) or meth == 'timeStep_CC' or meth.startswith('thermalModel'): continue
        if 'slide::Cell_SPM::' not in d and any(('slide::Cell_SPM::' + meth + '(') in ctx.dems().get(s, '') for s in ctx.vtabs().get(m, [])): continue
        seen.add(f['name']); rs.append(dict(name='Cell_SPM::' + meth + '@' + f['name'], cls=m, fn=f['name']))
    P = ctx.load(rs, unroll=True); o = {x: P.field(CLS, x) for x in ('Therm_Qgen', 'Therm_Qgentot', 'Therm_time')}
    for r in rs:
        F = P.fn(r['name']); n = r['name'].split('@')[0]
        if F is None or F.this is None: continue
        a = ctx.ai(F, P, HE(), CLS)
        for e in a.exits:
            w = a.changed(e['st'], a.this); bad = [x for x in o if o[x] and any(lo < o[x][0] + 8 and o[x][0] < hi for lo, hi, why in w)]
            if not bad: ctx.ok(n + ' keeps the collected heat')
            elif any(AT[y][0] in ('hv', 'undef') for x in bad for y in T.atoms(topoly(a.read(e['st'], a.this, o[x][0])))): ctx.undecided(n + ' keeps the collected heat', 'effect on %s unknown' % bad)
            else: ctx.violation(n + ' changes the collected heat', '%s changes %s' % (n, ', '.join(bad)), F.loc(e['I']))
