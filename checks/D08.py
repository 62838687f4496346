"""D08: operating energy and losses are handed over exactly once."""
TECH = 'abstract interpretation of the reading, adding and clearing functions: per-repetition effect of the loop over the members, closed forms of the increments, effect analysis of every other function'
NOTE = ('The cooling load is shown to be the own counter plus, for every member that is a pack, its load exactly once, with the own counter at zero afterwards; the increments of each thermal step equal the operating energy as closed forms, '
        'and no function but the step and the documented reset changes a counter. The same is shown for the converter losses.')
from vf.core import *
from vf.interp import Hooks
from vf.dtab import Paths
from vf.loops import Loops, method
from vf.members import Members
from vf import term as T, pit
from checks_util import other
C08 = other('C08')

def run(ctx):
    ctx.rule = ('getCoolingLoad: value = own counter at entry + one call per member that is a pack (all members visited) [battery: + load of its pack], own counter = 0 afterwards; dstate: counter += fan energy (+ AC energy); '
                'nothing else but reset_Eoperation changes the counter; losses: both counters += getLosses(V(), I()) dt steps, reading returns and clears the resettable one only')
    ctx.assume = ['real arithmetic', 'output to streams does not fail', 'a pack does not reach the counter of the pack above it']
    for k in ('Module_s', 'Module_p'): load(ctx, k)
    batload(ctx)
    for k in COOLS: dstate(ctx, k)
    keep(ctx); losses(ctx)

class H(Paths):
    K = 64; collect = True
    def call(self, ai, st, I, callee, args):
        if callee.startswith('__dynamic_cast'): return [(st.clone(), ptr(('call', I['id'], callee)), 'ret')]
        if 'slide::' in callee:
            r = [(st.clone(), atom(('call', I['id'], callee)), 'ret')]
            if I['op'] == 'invoke': r.append((st.clone(), None, 'unw'))
            return r
        return None

NV = [r'::(getCoolingLoad|getLosses|getACoperatingPower|thermalModel|V|I)\(']

def counter(P):
    f = P.field('slide::CoolSystem', 'coolData.cData.Eoperate')
    return f[0] if f else None

def own(ctx, n, a, P, F, co, e):
    """the own counter is cleared"""
    oc = counter(P); base = A(('E', a.this, co))
    v = topoly(a.read(e['st'], base, oc)); key = n + ' clears its counter'
    if v == ZERO: ctx.ok(key)
    elif any(AT[y][0] in ('hv', 'undef') for y in T.atoms(v)): ctx.undecided(key, show(v)[:100])
    else: ctx.violation(key, '%s leaves its own counter at %s' % (n, show(v)[:80]), F.loc(e['I']))
    return atom(('E', base, oc))

def load(ctx, k):
    n = k + '::getCoolingLoad'; cls = 'slide::' + k
    P = ctx.load(ctx.roots(k, ['getCoolingLoad']), never=NV); F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    a = ctx.ai(F, P, H(), cls, loops=True); L = Loops(a); co = P.field(cls, 'cool')[0]; M = Members(ctx, F, P, cls, a)
    casts = {}; elem = set()
    for I, st, args in a.sites:
        if I['op'] in ('call', 'invoke') and (I.get('callee') or '').startswith('__dynamic_cast'):
            casts.setdefault(I['id'], set()).add(M.range(I, st, args[0], every=False)); elem.add(topoly(args[0]))
    if len(casts) != 1: ctx.undecided(n, 'the test whether a member is a pack was not found once but %d times' % len(casts)); return
    rg = next(iter(casts.values())) - {None}; key = n + ' asks every member'
    if rg == {'all'}: ctx.ok(key)
    elif not rg: ctx.undecided(key, 'range of the members not understood')
    else: ctx.violation(key, '%s reaches only %s' % (n, ', '.join(map(str, rg - {'all'}))), F.loc(F.ins[next(iter(casts))]))
    c = next(iter(casts)); dyn = ptr(('call', c, F.ins[c].get('callee'))); isnull = None
    for e in a.exits:
        if e['kind'] != 'ret': continue
        E = own(ctx, n, a, P, F, co, e); v = topoly(e['val']); key = n + ' value'
        rest = sub(v, E); y = as_atom(rest) if rest != ZERO else None
        x = L.carried(as_atom(v)) if as_atom(v) is not None and AT[as_atom(v)][0] in ('j', 'jm') else None
        if v == E: ctx.ok(key + ' of an empty pack'); continue
        acc, i0 = (as_atom(v), E) if x and x[1] else (y, ZERO)
        x = L.carried(acc) if acc is not None and AT[acc][0] in ('j', 'jm') else None
        if not x or not x[1]:
            if any(AT[q][0] in ('hv', 'undef', 'j', 'jm') for q in T.atoms(v)): ctx.undecided(key, show(v)[:100])
            else: ctx.violation(key, '%s returns %s' % (n, show(v)[:100]), F.loc(e['I']))
            continue
        h, info = x
        if {topoly(t) for t in info['init']} == {i0}: ctx.ok(key + ', own share')
        else: ctx.violation(key + ', own share', '%s starts the sum from %s instead of the energy of its own cooling system' % (n, ' or '.join(show(t)[:60] for t in info['init'])), F.loc(e['I']))
        for (fr, to), sts in a.edges.items():
            if to != h or fr not in F.loops[h]['body']: continue
            for s in sts:
                nul = a.query(s, rel(topoly(dyn), ZERO, EQ, 7))
                u = update(a, F, AT[acc], fr, s); key = n + ' share of a member'
                if any(a.query(s, rel(x, ZERO, EQ, 7)) is True for x in elem): ctx.ok(key + ' place'); continue   # no member there
                if u is None: ctx.undecided(key, 'sum not followed'); continue
                d = sub(u, atom(AT[acc])); z = AT[as_atom(d)] if as_atom(d) is not None else ()
                if nul is True:
                    if d == ZERO: ctx.ok(key + ' that is no pack')
                    else: ctx.violation(key + ' that is no pack', '%s adds %s for a member that is no pack' % (n, show(d)[:80]), F.loc(e['I']))
                elif nul is False:
                    if z and z[0] == 'call' and method(z[2]) == 'getCoolingLoad': 
                        J = F.ins[z[1]]; ctx.ok(key)
                    elif any(AT[q][0] in ('hv', 'undef') for q in T.atoms(d)): ctx.undecided(key, show(d)[:80])
                    else: ctx.violation(key, '%s adds %s for a pack among its members, not its cooling load' % (n, show(d)[:80]), F.loc(e['I']))
                elif not F.dominates(F.blk[c], fr): ctx.violation(key, '%s does not look at every member' % n, F.loc(F.ins[c]))
                else: ctx.undecided(key, 'path does not tell whether the member is a pack')
    once(ctx, n, a, F)
    calls = [I for I, st, args in a.sites if I['op'] in ('call', 'invoke') and method(I.get('dem') or '') == 'getCoolingLoad']; oc = counter(P)
    for I, st, p, v in a.stores:
        if AT[p[1]] == ('E', a.this, co) or not is_const(p[2]) or cval(p[2]) != oc or AT[p[1]][0] in ('alloca', 'new', 'glob'): continue
        key = n + ' clears the counter of a member after reading it'
        if any(F.dominates(F.blk[J['id']], F.blk[I['id']]) and (F.blk[J['id']] != F.blk[I['id']] or [x['id'] for x in F.blocks[F.blk[I['id']]]].index(J['id']) < [x['id'] for x in F.blocks[F.blk[I['id']]]].index(I['id'])) for J in calls): ctx.ok(key)
        else: ctx.violation(key, '%s changes the counter of a member before it was read' % n, F.loc(I))

def once(ctx, n, a, F):
    """one call per repetition: a second call would return and drop what was counted since"""
    L = {I['id'] for I, st, args in a.sites if I['op'] in ('call', 'invoke') and method(I.get('dem') or '') == 'getCoolingLoad'}
    if len(L) == 1: ctx.ok(n + ' one call')
    elif len(L) > 1:
        used = {z for e in a.exits for z in ()}
        bl = [F.blk[i] for i in L]
        if any(x != y and F.dominates(x, y) for x in bl for y in bl) or len(set(bl)) < len(bl): ctx.violation(n + ' one call', '%s reads the load of a member twice' % n, F.loc(F.ins[sorted(L)[-1]]))
        else: ctx.undecided(n + ' one call', 'several calls of getCoolingLoad')

def update(a, F, t, fr, s):
    if t[0] == 'j':
        I = F.ins[t[2]]
        for o, b in I['in']:
            if b == fr: return topoly(a.val(s, o))
        return None
    return topoly(a.read(s, t[1], t[2]))

def batload(ctx):
    n = 'Battery::getCoolingLoad'; cls = 'slide::Battery'
    P = ctx.load(ctx.roots('Battery', ['getCoolingLoad']), never=NV); F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    a = ctx.ai(F, P, H(), cls, loops=True); co = P.field(cls, 'cool')[0]; ce = P.field(cls, 'cells')[0]
    for e in a.exits:
        if e['kind'] != 'ret': continue
        E = own(ctx, n, a, P, F, co, e); d = sub(topoly(e['val']), E); z = AT[as_atom(d)] if as_atom(d) is not None else ()
        key = n + ' value'
        if z and z[0] == 'call' and method(z[2]) == 'getCoolingLoad' and any(I['id'] == z[1] and topoly(args[0]) == topoly(ptr(('E', a.this, ce))) for I, st, args in a.sites): ctx.ok(key)
        elif any(AT[q][0] in ('hv', 'undef') for q in T.atoms(d)): ctx.undecided(key, show(d)[:100])
        else: ctx.violation(key, '%s returns %s, not its own operating energy plus the load of its pack' % (n, show(e['val'])[:100]), F.loc(e['I']))
    once(ctx, n, a, F)

def dstate(ctx, k):
    n = k + '::dstate'; CLS = 'slide::' + k
    P = ctx.load(ctx.roots(k, ['dstate']), never=NV); F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    a = ctx.ai(F, P, H(), CLS, loops=True); th = a.this; E = lambda x: atom(('E', th, P.field(CLS, x)[0]))
    t = atom(('arg', F.args[-1]['id'])); A_, rho, eta, flow = E('Across'), E('fluid_rho'), E('eta'), E('flowrate')
    sp = div(flow, A_); fan = mul(div(scale(mul(mul(rho, A_), mul(sp, mul(sp, sp))), .5), eta), t)
    oc = counter(P)
    dom = lambda x: (0.3, 3)
    for e in a.exits:
        v = sub(topoly(a.read(e['st'], th, oc)), atom(('E', th, oc)))
        if e['kind'] != 'ret':
            ctx.check(n + ' failing', v == ZERO, '%s changes the operating energy by %s although it fails' % (n, show(v)[:80]), F.loc(e['I'])); continue
        want = fan; ac = None
        if k == 'CoolSystem_HVAC':
            for I, st, args in a.sites:
                if I['op'] in ('call', 'invoke') and method(I.get('dem') or '') == 'getACoperatingPower':
                    if topoly(args[1]) == E('Q_ac') and topoly(args[2]) == t: ac = atom(('call', I['id'], I['dem']))
            if ac is None: ctx.violation(n + ' AC energy', '%s does not ask for the energy of its AC unit at its present power and time' % n, F.loc(e['I'])); continue
            want = add(fan, ac)
        key = n + ' adds its operating energy'; q = pit.equal(v, want, e['st'], dom)
        if q is None: q = pit.equal(v, want, None, dom)
        if q is True: ctx.ok(key)
        elif any(AT[y][0] in ('hv', 'undef') for y in T.atoms(v)) or q is None: ctx.undecided(key, show(v)[:100])
        else: ctx.violation(key, '%s adds %s to the operating energy' % (n, show(v)[:140]), F.loc(e['I']))

class HE(Hooks): K = 16

def keep(ctx):
    """no other function of a cooling system or of its data changes the counter"""
    for k in COOLS:
        rs = []; seen = set(); CLS = 'slide::' + k
        for f in ctx.find(r'^(?:[\w:<>*&, ]+ )?slide::(%s|CoolSystem)::~?\w+\(' % k):
            mm = re.search(r'slide::(?:\w+)::(~?\w+)\(', f['dem']); m = mm and mm.group(1)
            if not m or '~' in m or '$_' in f['dem'] or f['name'] in seen or m in ('dstate', 'reset_Eoperation', 'copy') or re.match(r'CoolSystem\w*$', m): continue
            seen.add(f['name']); rs.append(dict(name=k + '::' + m + '@' + f['name'], cls=COOLS[k], fn=f['name']))
        P = ctx.load(rs); oc = counter(P)
        if oc is None: ctx.undecided(k, 'counter not found'); continue
        for r in rs:
            F = P.fn(r['name']); n = r['name'].split('@')[0]
            if F is None or F.this is None: continue
            a = ctx.ai(F, P, HE(), CLS)
            for e in a.exits: keeps(ctx, n, a, F, e, {'operating energy': oc})
    rs = []; seen = set()
    for f in ctx.find(r'slide::CoolSystem(_HVAC)?Data::\w+\('):
        m = re.search(r'slide::(CoolSystem\w*Data)::(\w+)\(', f['dem'])
        if f['name'] in seen or m.group(2) in ('storeCumulativeData', m.group(1)): continue
        seen.add(f['name']); rs.append(dict(name=m.group(1) + '::' + m.group(2) + '@' + f['name'], cls='', fn=f['name']))
    P = ctx.load(rs); f = P.field('slide::CoolSystemData', 'cData.Eoperate')
    if f is None: ctx.undecided('CoolSystemData', 'counter not found'); return
    for r in rs:
        F = P.fn(r['name']); n = r['name'].split('@')[0]
        if F is None or F.this is None: continue
        a = ctx.ai(F, P, HE(), None)
        if n.startswith('CoolSystemData'):
            for e in a.exits: keeps(ctx, n, a, F, e, {'operating energy': f[0]})

def keeps(ctx, n, a, F, e, offs):
    for what, o in offs.items():
        key = '%s keeps the %s' % (n, what); v = topoly(a.read(e['st'], a.this, o))
        if v == atom(('E', a.this, o)): ctx.ok(key)
        elif any(AT[y][0] in ('hv', 'undef') for y in T.atoms(v)): ctx.undecided(key, show(v)[:80])
        else: ctx.violation(key, '%s changes the %s to %s' % (n, what, show(v)[:80]), F.loc(e['I']))

def losses(ctx):
    cls = 'slide::Battery'
    P = ctx.load(ctx.roots('Battery', ['timeStep_CC', 'getAndResetConvLosses'] + [m for m in ('resetConvLosses', 'getConvLosses_total') if ctx.find('slide::Battery::%s\\(' % m)]), never=NV + [r'::(getThotSpot|redistributeCurrent|control)\(', r'slide::Module[a-z_]*::', r'slide::transform_max'])
    L, Tt = P.field(cls, 'convlosses')[0], P.field(cls, 'convlosses_tot')[0]
    n = 'Battery::timeStep_CC'; F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found')
    else:
        a = ctx.ai(F, P, H(), cls, loops=True); th = a.this; E = lambda o: atom(('E', th, o))
        dt = atom(('arg', next(x for x in F.pargs if x['ty'] == 'double')['id'])); ns = atom(('arg', next(x for x in F.pargs if x['ty'] == 'i32')['id']))
        for e in a.exits:
            if e['kind'] != 'ret': continue
            d1, d2 = [sub(topoly(a.read(e['st'], th, o)), E(o)) for o in (L, Tt)]
            key = n + ' losses'; r = div(div(d1, dt), ns); z = AT[as_atom(r)] if as_atom(r) is not None else ()
            if any(AT[y][0] in ('hv', 'undef') for d in (d1, d2) for y in T.atoms(d)): ctx.undecided(key, show(d1)[:80]); continue
            good = z and z[0] == 'call' and method(z[2]) == 'getLosses' and d1 == d2
            if good:
                g = [args for I, st, args in a.sites if I['id'] == z[1]]
                for args in g:
                    q = [AT[as_atom(topoly(x))] if as_atom(topoly(x)) is not None else () for x in args[1:3]]
                    if not all(x and x[0] in ('call', 'm') for x in q) or [method(x[2] if x[0] == 'call' else x[1]) for x in q] != ['V', 'I']: good = False
            if good: ctx.ok(key)
            else: ctx.violation(key, '%s adds %s to the losses of the period and %s to those of the lifetime' % (n, show(d1)[:90], show(d2)[:90]), F.loc(e['I']))
    for m, val, new in (('getAndResetConvLosses', 'E', ZERO), ('resetConvLosses', None, ZERO), ('getConvLosses_total', 'T', None)):
        n = 'Battery::' + m; F = P.fn(n)
        if F is None: ctx.undecided(n, 'not found') if m != 'resetConvLosses' and m != 'getConvLosses_total' else None; continue
        a = ctx.ai(F, P, H(), cls); th = a.this; E = lambda o: atom(('E', th, o))
        for e in a.exits:
            x, y = topoly(a.read(e['st'], th, L)), topoly(a.read(e['st'], th, Tt))
            ok = x == (new if new is not None else E(L)) and y == E(Tt) and (val is None or topoly(e['val']) == E(L if val == 'E' else Tt))
            ctx.check(n, ok, '%s returns %s and leaves the period at %s and the lifetime at %s' % (n, show(e['val']) if e['val'] is not None else 'nothing', show(x), show(y)), F.loc(e['I']))
    rs = []; seen = set(); m = PACKS.get('Battery') or 'N5slide7BatteryE'
    for f in ctx.find(r'^(?:[\w:<>*&, ]+ )?slide::Battery::~?\w+\('):
        mm = re.search(r'slide::Battery::(~?\w+)\(', f['dem']); q = mm.group(1)
        if '~' in q or q in ('Battery', 'timeStep_CC', 'getAndResetConvLosses', 'resetConvLosses', 'copy') or '$_' in f['dem'] or f['name'] in seen: continue
        seen.add(f['name']); rs.append(dict(name='Battery::' + q + '@' + f['name'], cls=m, fn=f['name']))
    P = ctx.load(rs, opaque=[r'slide::linInt', r'slide::Module', r'slide::StorageUnit::'], force=[r'slide::Battery::'])
    for r in rs:
        F = P.fn(r['name'])
        if F is None or F.this is None: continue
        a = ctx.ai(F, P, H(), cls)
        for e in a.exits: keeps(ctx, r['name'].split('@')[0], a, F, e, {'losses of the period': L, 'losses of the lifetime': Tt})
