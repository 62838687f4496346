"""D03: a blocked unit neither ages nor heats; an unblocked one always does."""
TECH = 'abstract interpretation of every time step under both values of the block flag, with loop summaries for the heat of the contact resistances and member coverage of the block request'
NOTE = ('Under the block flag no path of a time step changes an ageing quantity, a temperature, a heat accumulator or a thermal clock, nor evaluates a thermal or ageing model; without it every returning path evaluates the heat generation and the degradation models once and adds '
        'exactly its elapsed time and heat to the accumulators before the thermal balance is evaluated. That a request to block reaches every member is a coverage argument over the member loop.')
from vf.core import *
from vf.interp import Hooks
from vf.loops import Loops, method, subst_atoms
from vf.members import Members
from vf.dtab import Paths
from vf import term as T, pit
from checks_util import other
C08 = other('C08'); D04 = other('D04')

FREE = re.compile(r'^(z[pn]\(\d+\)|SOC)$')

def run(ctx):
    ctx.rule = ('flag set => temperature, ageing states, Therm_*/therm.* unchanged on every exit and no thermal/ageing model call reachable; flag clear => on every normal return heat += rate*dt*n and clock += dt*n (read at the thermal balance if there is no parent), '
                'models evaluated exactly once; setBlockDegAndTherm stores its argument and forwards it to every member')
    ctx.assume = ['real arithmetic', 'the number of sub-steps is not negative', 'a member stepped in time does not change its owner (G02)']
    spm(ctx)
    for k in CELLS:
        if k != 'Cell_SPM': plain(ctx, k)
    for k in ('Module_s', 'Module_p'): module(ctx, k)
    battery(ctx)
    block(ctx)

def blk(P, cls):
    f = P.field(cls, 'blockDegAndTherm')
    return None if f is None else f[0]

def noparent(th, o): return rel(topoly(ptr(('E', th, o))), ZERO, EQ, 7)

def flag(a, st, th, o):
    """True: blocked, False: not blocked, None: not tested on this path"""
    return {True: False, False: True, None: None}[a.query(st, rel(atom(('E', th, o)), ZERO, EQ, 7))]

class HC(Paths):
    K = 64; collect = True
    def call(self, ai, st, I, callee, args):
        m = method(callee)
        if not (args and args[0] == ('ptr', ai.this, ZERO)): return None
        if m in ('V', 'dState_thermal', 'thermalModel', 'updateDaiStress', 'updateLaresgoitiStress', 'setT', 'getThermalSurface', 'dState_degradation', 'dState_diffusion'):
            r = st.clone()
            if m == 'dState_thermal': ai.store(r, [x for x in args[1:] if x[0] == 'ptr'][0], atom(('out', 'dQgen')), 8, I)
            if m in ('dState_degradation', 'dState_diffusion'):
                p = [x for x in args[1:] if x[0] == 'ptr'][0]
                if is_const(p[2]):
                    for i in range(32): ai.store(r, ('ptr', p[1], const(int(cval(p[2])) + 8 * i)), atom((m, i)), 8, I)
            if m in ('dState_degradation', 'dState_thermal', 'thermalModel', 'setT'): r.ps = tuple(st.ps) + (m,)
            res = [(r, atom(('call', I['id'], callee)), 'ret')]
            if I['op'] == 'invoke': res.append((st.clone(), None, 'unw'))
            return res
        return None
    def key(self, ai, st, blk): return (st.ps, flag(ai, st, ai.this, self.o), ai.query(st, noparent(ai.this, self.par)))
    exitkey = lambda self, ai, st: self.key(ai, st, None)

def spm(ctx):
    n = 'Cell_SPM::timeStep_CC'; CLS = 'slide::Cell_SPM'
    P = ctx.load(ctx.roots('Cell_SPM', ['timeStep_CC']), never=[r'slide::Cell_SPM::(V|dState_[a-z]+|thermalModel[A-Za-z_]*|update[A-Za-z]+Stress|setT)\('], unroll=True)
    F = P.fn(n); ix = D04.index(ctx)
    if F is None or ix is None: ctx.undecided(n, 'not found'); return
    h = HC(); h.o = blk(P, CLS); h.par = P.field(CLS, 'parent')[0]
    a = ctx.ai(F, P, h, CLS, loops=True); L = Loops(a); th = a.this
    dt = atom(('arg', next(x['id'] for x in F.pargs[1:] if x['ty'] == 'double'))); ns = atom(('arg', next(x['id'] for x in F.pargs[1:] if x['ty'].startswith('i'))))
    el = mul(dt, ns); dom = C08.DOM(a, ns)
    keep = {ix['st'] + 8 * i: ix[i] for i in range(ix['n']) if i in ix and not FREE.match(ix[i])}
    acc = {P.field(CLS, x)[0]: x for x in ('Therm_Qgen', 'Therm_Qgentot', 'Therm_time') if P.field(CLS, x)}
    keep.update(acc)
    for e in a.exits:
        f = flag(a, e['st'], th, h.o)
        if f is True:
            for o, nm in keep.items():
                v = a.read(e['st'], th, o); r = C08.steps(L, v); old = atom(('E', th, o)); key = '%s blocked keeps %s' % (n, nm)
                if nm in ('I', 'V', 'time', 'Ah', 'Wh'): continue
                if r is not None and (C08.close(sub(r[0], old)) or pit.equal(r[0], old, None, dom)): ctx.ok(key)
                elif r is None or C08.foreign(sub(r[0], old), th): ctx.undecided(key, 'value %s' % show(v)[:100])
                else: ctx.violation(key, 'a blocked step changes %s by %s' % (nm, show(sub(r[0], old))[:150]), F.loc(e['I']))
        if f is not True and e['kind'] == 'ret':
            par = {True: False, False: True, None: None}[a.query(e['st'], noparent(th, h.par))]
            for m, t in (('dState_thermal', 'heat generation'), ('dState_degradation', 'degradation models')):
                c = e['st'].ps.count(m); key = '%s unblocked %s' % (n, t)
                if c == 1: ctx.ok(key)
                elif f is None and c == 0: ctx.violation(key, 'a step ends without the %s although nothing has checked that the cell is blocked' % t, F.loc(e['I']))
                else: ctx.violation(key, 'the %s %s in an unblocked step' % (t, 'is not evaluated' if c == 0 else 'is evaluated %d times' % c), F.loc(e['I']))
            if par is True: heat(ctx, n + ' (in a pack)', a, L, F, e['st'], th, P, CLS, el, dom, F.loc(e['I']))
            else:
                ok = 'thermalModel' in e['st'].ps and e['st'].ps.index('thermalModel') < len(e['st'].ps) - 1 - e['st'].ps[::-1].index('setT') if 'setT' in e['st'].ps and 'thermalModel' in e['st'].ps else False
                key = n + ' alone: temperature updated'
                if ok: ctx.ok(key)
                else: ctx.violation(key, 'an unblocked step of a cell without a parent ends without a new temperature', F.loc(e['I']))
    for I, st, args in a.sites:
        if I['op'] not in ('call', 'invoke') or not (args and args[0] == ('ptr', th, ZERO)): continue
        m = method(I.get('dem') or '')
        if m not in ('thermalModel', 'setT', 'dState_thermal', 'dState_degradation'): continue
        key = '%s %s only when not blocked' % (n, m)
        if flag(a, st, th, h.o) is False: ctx.ok(key)
        else: ctx.violation(key, '%s is reached in a step of a blocked cell' % m, F.loc(I))
        if m == 'thermalModel':
            heat(ctx, n + ' (alone)', a, L, F, st, th, P, CLS, el, dom, F.loc(I))
            w = atom(('E', th, P.field(CLS, 'Therm_time')[0])); t = topoly(args[-1]); key = n + ' time of the thermal balance'
            if C08.close(sub(t, add(w, el))) or pit.equal(t, add(w, el), None, dom): ctx.ok(key)
            elif C08.foreign(sub(t, add(w, el)), th): ctx.undecided(key, show(t)[:100])
            else: ctx.violation(key, 'the thermal balance is evaluated for %s instead of the collected time' % show(t)[:150], F.loc(I))
        if m == 'setT':
            x = as_atom(topoly(args[1])); key = n + ' stores the temperature of the balance'
            if x is not None and AT[x][0] == 'call' and method(AT[x][2]).startswith('thermalModel'): ctx.ok(key)
            else: ctx.violation(key, 'the temperature stored is %s, not the result of the thermal balance' % show(args[1])[:100], F.loc(I))

def heat(ctx, n, a, L, F, st, th, P, CLS, el, dom, where):
    for nm, w in (('Therm_Qgen', mul(el, atom(('out', 'dQgen')))), ('Therm_time', el)):
        o = P.field(CLS, nm)[0]; v = a.read(st, th, o); r = C08.steps(L, v); want = add(atom(('E', th, o)), w); key = '%s %s' % (n, nm)
        if r is not None and (C08.close(sub(r[0], want)) or pit.equal(r[0], want, None, dom)): ctx.ok(key)
        elif r is None or C08.foreign(sub(r[0], want), th): ctx.undecided(key, 'value %s' % show(v)[:100])
        else: ctx.violation(key, '%s: %s changes by %s instead of %s' % (n, nm, show(sub(r[0], atom(('E', th, o))))[:150], show(w)[:100]), where)

# ---- cells without thermal or ageing models ---------------------------------------
def plain(ctx, k):
    n = k + '::timeStep_CC'; cls = 'slide::' + k
    P = ctx.load(ctx.roots(k, ['timeStep_CC', 'T']), unroll=True); F = P.fn(n); G = P.fn(k + '::T')
    if F is None or G is None: ctx.undecided(n, 'not found'); return
    g = ctx.ai(G, P, Hooks(), cls); v = {e['val'] for e in g.exits if e['kind'] == 'ret'}
    x = as_atom(topoly(next(iter(v)))) if len(v) == 1 else None
    if x is None or AT[x][0] != 'E': ctx.undecided(n, 'temperature is not a stored quantity'); return
    a = ctx.ai(F, P, Hooks(), cls)
    for e in a.exits:
        key = n + ' keeps the temperature'
        if a.read(e['st'], a.this, AT[x][2]) == atom(('E', a.this, AT[x][2])): ctx.ok(key)
        elif any(AT[y][0] in ('hv', 'jm', 'j', 'call') for y in T.atoms(topoly(a.read(e['st'], a.this, AT[x][2])))): ctx.undecided(key, show(a.read(e['st'], a.this, AT[x][2]))[:100])
        else: ctx.violation(key, '%s changes the temperature of a cell without a thermal model' % n, F.loc(e['I']))

# ---- packs ------------------------------------------------------------------------
PASS = {'timeStep_CC', 'run', 'I', 'T', 'V', 'thermalModel', 'setT', 'control', 'getThotSpot', 'getFullID', 'getLosses', 'redistributeCurrent', 'getCoolSystem'}

class HM(Hooks):
    K = 64
    def call(self, ai, st, I, callee, args):
        m = method(callee)
        if 'slide::' in callee or callee.startswith('vcall:'):
            if m in PASS or re.search(r'slide::run<', callee):
                r = st.clone()
                if m in ('thermalModel', 'setT'): r.ps = tuple(st.ps) + (m,)
                res = [(r, atom(('call', I['id'], callee)), 'ret')]
                if I['op'] == 'invoke': res.append((st.clone(), None, 'unw'))
                return res
        return None
    def key(self, ai, st, blk): return (st.ps, flag(ai, st, ai.this, self.o), ai.query(st, noparent(ai.this, self.par)))
    exitkey = lambda self, ai, st: self.key(ai, st, None)

def mine(args, th): return bool(args) and args[0] == ('ptr', th, ZERO)

def module(ctx, k):
    n = k + '::timeStep_CC'; cls = 'slide::' + k
    P = ctx.load(ctx.roots(k, ['timeStep_CC']), never=[r'slide::run<', r'slide::(Module[a-z_]*|StorageUnit)::(thermalModel[A-Za-z_]*|setT|I|T|V|getThotSpot|redistributeCurrent|getCoolSystem|getFullID)\('])
    F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    h = HM(); h.o = blk(P, cls); h.par = P.field(cls, 'parent')[0]
    a = ctx.ai(F, P, h, cls, loops=True); L = Loops(a); th = a.this
    dt = atom(('arg', next(x['id'] for x in F.pargs[1:] if x['ty'] == 'double'))); ns = atom(('arg', next(x['id'] for x in F.pargs[1:] if x['ty'].startswith('i'))))
    el = mul(dt, ns); dom = C08.DOM(a, ns)
    ft = P.field(cls, 'therm'); ot = P.field(cls, 'therm.time')[0]; oq = P.field(cls, 'therm.Qcontact')[0]
    def acc(st, where, tag):
        v = topoly(a.read(st, th, ot)); want = add(atom(('E', th, ot)), el); key = '%s %s thermal clock' % (n, tag)
        if C08.close(sub(v, want)) or pit.equal(v, want, None, dom): ctx.ok(key)
        elif C08.foreign(sub(v, want), th): ctx.undecided(key, show(v)[:100])
        else: ctx.violation(key, '%s: the thermal clock changes by %s instead of the duration of the step' % (n, show(sub(v, atom(('E', th, ot))))[:120]), where)
        contact(ctx, k, n, tag, a, L, F, P, cls, st, a.read(st, th, oq), oq, el, where)
    for e in a.exits:
        f = flag(a, e['st'], th, h.o)
        if f is True or e['kind'] == 'throw' and f is None:
            key = n + ' blocked keeps the thermal data'
            bad = [(lo, hi) for lo, hi, why in a.changed(e['st'], th) if lo < ft[0] + ft[1] and ft[0] < hi]
            if not bad: ctx.ok(key)
            else: ctx.violation(key, '%s of a blocked pack changes its heat accumulator or thermal clock' % n, F.loc(e['I']))
        if e['kind'] != 'ret': continue
        if f is None: ctx.violation(n + ' unblocked', 'a step ends without the thermal clock although nothing has checked that the pack is blocked', F.loc(e['I'])); continue
        if f is False:
            par = {True: False, False: True, None: None}[a.query(e['st'], noparent(th, h.par))]
            if par is True: acc(e['st'], F.loc(e['I']), 'in a pack')
            else:
                key = n + ' top level: temperature updated'
                if e['st'].ps[-2:] == ('thermalModel', 'setT'): ctx.ok(key)
                else: ctx.violation(key, 'an unblocked step of a pack without a parent ends without a new temperature', F.loc(e['I']))
    for I, st, args in a.sites:
        if I['op'] not in ('call', 'invoke'): continue
        m = method(I.get('dem') or '')
        if m not in ('thermalModel', 'setT'): continue
        key = '%s %s only when not blocked' % (n, m)
        if flag(a, st, th, h.o) is False: ctx.ok(key)
        else: ctx.violation(key, '%s is reached in a step of a blocked pack' % m, F.loc(I))
        if m == 'thermalModel' and mine(args, th):
            acc(st, F.loc(I), 'top level')
            t = topoly(args[-1]); w = add(atom(('E', th, ot)), el); key = n + ' time of the thermal balance'
            if C08.close(sub(t, w)) or pit.equal(t, w, None, dom): ctx.ok(key)
            elif C08.foreign(sub(t, w), th): ctx.undecided(key, show(t)[:100])
            else: ctx.violation(key, 'the thermal balance is evaluated for %s instead of the collected time' % show(t)[:150], F.loc(I))
        if m == 'setT' and mine(args, th):
            x = as_atom(topoly(args[1])); key = n + ' stores the temperature of the balance'
            if x is not None and AT[x][0] == 'call' and method(AT[x][2]).startswith('thermalModel'): ctx.ok(key)
            else: ctx.violation(key, 'the temperature stored is %s, not the result of the thermal balance' % show(args[1])[:100], F.loc(I))

def contact(ctx, k, n, tag, a, L, F, P, cls, st, v, oq, el, where):
    """heat of the contact resistances: sum over all of R_i * (current through resistor i)^2 * time"""
    key = '%s %s heat of the contact resistances' % (n, tag); th = a.this; v = topoly(v)
    old = atom(('E', th, oq)); x = as_atom(v)
    if C08.close(sub(v, old)):
        ctx.violation(key, '%s: the heat of the contact resistances is not collected' % n, where); return
    c = L.carried(x) if x is not None else None
    if not c or not c[1] or {topoly(i) for i in c[1]['init']} != {old} or not c[1]['upd']: ctx.undecided(key, 'value %s' % show(v)[:120]); return
    h, inf = c; rf = P.field(cls, 'Rcontact')[0]
    rb, re_ = topoly(ptr(('E', th, rf))), topoly(ptr(('E', th, rf + 8))); nr = scale(sub(re_, rb), 0.125)
    sf = P.field(cls, 'SUs')[0]; sb, se = topoly(ptr(('E', th, sf))), topoly(ptr(('E', th, sf + 8))); nsu = scale(sub(se, sb), 0.125)
    K = L.k(h); N = {C08.clamp(q) for _, q in L.trip(h)}
    if len(N) != 1: ctx.undecided(key, 'trip count'); return
    N = next(iter(N))
    if N not in (nr, nsu): ctx.violation(key, '%s: the heat of %s resistances is collected instead of all' % (n, show(N)[:60]), where); return
    # two cells agree in length (C09 keeps Rcontact and SUs of the same size)
    bad = []; ok = 0
    for u in inf['upd']:
        d = L.norm(sub(topoly(u), atom(x)))
        r = [y for y in T.atoms(d) if AT[y][0] == 'ldm']
        if len(r) != 1 or AT[r[0]][1] != add(rb, scale(atom(K), 8)): ctx.undecided(key, 'element %s' % [show(AT[y][1])[:60] for y in r]); return
        cur = sorted({y for m, c_ in d[1] for y, _ in m} - set(r) - set(T.atoms(el)))
        if k == 'Module_s':
            if len(cur) == 1 and AT[cur[0]][0] == 'm' and AT[cur[0]][1] == 'I' or len(cur) == 1 and AT[cur[0]][0] == 'call' and method(AT[cur[0]][2]) == 'I': I_ = atom(cur[0])
            else: ctx.undecided(key, 'current %s' % [show(atom(y))[:60] for y in cur]); return
        else:
            if len(cur) != 1 or AT[cur[0]][0] not in ('j', 'jm'): ctx.undecided(key, 'current %s' % [show(atom(y))[:60] for y in cur]); return
            I_ = atom(cur[0]); c2 = L.carried(cur[0])
            if not c2 or not c2[1]: ctx.undecided(key, 'current'); return
            h2, i2 = c2
            if {topoly(i) for i in i2['init']} != {ZERO}:
                ctx.violation(key, '%s: the current through a contact resistance does not start at zero for each resistance, it includes what was added for the others' % n, where); return
            K2 = L.k(h2); N2 = {C08.clamp(q) for _, q in L.trip(h2)}
            for w in i2['upd']:
                g = as_atom(L.norm(sub(topoly(w), atom(cur[0]))))
                if g is None or AT[g][0] != 'm' or AT[g][1] != 'I': ctx.undecided(key, 'current of a member'); return
                idx = scale(sub(AT[g][2], sb), 0.125)
                if idx == add(atom(K2), atom(K)) and N2 == {sub(nsu, atom(K))} or idx == sub(sub(nsu, ONE), atom(K2)) and N2 == {sub(nsu, atom(K))}: continue
                if not (known(idx, K, K2, nsu) and len(N2) == 1 and known(next(iter(N2)), K, K2, nsu)): ctx.undecided(key, 'members summed %s, %s' % (show(idx), [show(q) for q in N2])); return
                ctx.violation(key, '%s: the current through contact resistance i is summed over members %s (%s of them) instead of all from i on' % (n, show(idx), [show(q) for q in N2]), where); return
        w = mul(mul(atom(r[0]), mul(I_, I_)), el)
        if C08.close(sub(d, w)) or pit.equal(d, w): ok += 1
        else: bad.append(d)
    if bad: ctx.violation(key, '%s: the heat collected per contact resistance is %s instead of R I^2 times the elapsed time' % (n, show(bad[0])[:160]), where)
    elif ok: ctx.ok(key)

def known(t, K, K2, n):
    return not set(T.atoms(t)) - {K, K2} - set(T.atoms(n))

def battery(ctx):
    n = 'Battery::timeStep_CC'; cls = 'slide::Battery'
    P = ctx.load(ctx.roots('Battery', ['timeStep_CC']), opaque=[r'slide::Module', r'slide::StorageUnit', r'slide::Battery::(thermalModel[A-Za-z_]*|V|I|T|getThotSpot)\('], force=[r'^slide::Battery::timeStep'])
    F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    class HB(Paths):
        K = 32; collect = True
        def call(self, ai, st, I, callee, args):
            if method(callee) in PASS and not callee.startswith('std::'):
                r = st.clone()
                if method(callee) in ('thermalModel', 'timeStep_CC'): r.ps = tuple(st.ps) + (method(callee),)
                res = [(r, atom(('call', I['id'], callee)), 'ret')]
                if I['op'] == 'invoke': res.append((st.clone(), None, 'unw'))
                return res
        def key(self, ai, st, blk): return st.ps
        exitkey = lambda self, ai, st: st.ps
    a = ctx.ai(F, P, HB(), cls); th = a.this; o = blk(P, cls)
    dt = atom(('arg', next(x['id'] for x in F.pargs[1:] if x['ty'] == 'double'))); ns = atom(('arg', next(x['id'] for x in F.pargs[1:] if x['ty'].startswith('i'))))
    for e in a.exits:
        if e['kind'] != 'ret': continue
        f = flag(a, e['st'], th, o); c = e['st'].ps.count('thermalModel')
        if f is True: ctx.check(n + ' blocked', c == 0, 'the thermal balance of a blocked battery is evaluated', F.loc(e['I']))
        else: ctx.check(n + ' unblocked', c == 1 and f is False, 'an unblocked step of the battery evaluates the thermal balance %d times' % c, F.loc(e['I']))
        ctx.check(n + ' steps its cells once', e['st'].ps.count('timeStep_CC') == 1, 'a step of the battery steps its cells %d times' % e['st'].ps.count('timeStep_CC'), F.loc(e['I']))
    for I, st, args in a.sites:
        if I['op'] not in ('call', 'invoke') or method(I.get('dem') or '') not in ('thermalModel', 'timeStep_CC'): continue
        m = method(I['dem'])
        if m == 'thermalModel':
            ctx.check(n + ' only when not blocked', flag(a, st, th, o) is False, 'the thermal balance is reached in a step of a blocked battery', F.loc(I))
            t = topoly(args[-1])
            ctx.check(n + ' time of the balance', C08.close(sub(t, mul(dt, ns))) or pit.equal(t, mul(dt, ns)), 'the thermal balance is evaluated for %s' % show(t)[:100], F.loc(I))
        else:
            ctx.check(n + ' passes its step on', [topoly(x) for x in args[1:]] == [dt, ns], 'the cells are stepped with %s' % [show(x)[:40] for x in args[1:]], F.loc(I))

# ---- the request to block -----------------------------------------------------------
def block(ctx):
    todo = {**CELLS, **PACKS}
    for k in todo:
        n = k + '::setBlockDegAndTherm'; cls = 'slide::' + k
        kw = dict(opaque=[r'slide::Module::', r'slide::StorageUnit::'], force=[r'^slide::Battery::', r'slide::StorageUnit::setBlock']) if k == 'Battery' else {}
        P = ctx.load(ctx.roots(k, ['setBlockDegAndTherm']), **kw); F = P.fn(n)
        if F is None: ctx.undecided(n, 'not found'); continue
        a = ctx.ai(F, P, Hooks(), cls, loops=True); th = a.this; o = blk(P, cls); b = atom(('arg', F.pargs[1]['id'])); bs = {show(b)} if F.pargs[1]['ty'] != 'i1' else {show(tobool(b)), show(b)}
        same = lambda v: show(v) in bs or show(topoly(v)) in bs
        seen = None
        if k in PACKS:
            M = Members(ctx, F, P, cls, a, single='cells' if k == 'Battery' else None); rg = set()
            for I, st, args in a.sites:
                if I['op'] not in ('call', 'invoke') or method(I.get('dem') or '') != 'setBlockDegAndTherm': continue
                if args[0] == ('ptr', th, ZERO): continue
                r = M.range(I, st, args[0])
                if not same(args[1]): ctx.violation(n + ' forwards', '%s passes %s on to its members' % (n, show(args[1])[:60]), F.loc(I))
                rg.add(r)
            key = n + ' reaches every member'
            if 'all' in rg: ctx.ok(key)
            elif rg and None not in rg: ctx.violation(key, '%s reaches %s' % (n, ', '.join(sorted(rg))), F.file if hasattr(F, 'file') else '')
            elif rg: ctx.undecided(key, 'members reached not resolved')
            else: ctx.violation(key, '%s is not passed on to the members' % n, F.loc(a.exits[0]['I']) if a.exits else '')
        for e in a.exits:
            if e['kind'] != 'ret': continue
            v = a.read(e['st'], th, o); key = n + ' sets the flag'
            if same(v): ctx.ok(key)
            elif C08.foreign(v, th): ctx.undecided(key, show(v)[:80])
            else: ctx.violation(key, '%s stores %s' % (n, show(v)[:80]), F.loc(e['I']))
