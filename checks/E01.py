"""E01: the cycler reports the true reason why it stopped."""
TECH = 'path-sensitive abstract interpretation of the phase functions: every exit is compared with what its path established about the last readings of the unit, the time stepped (ghost) and the failed operation'
NOTE = ('For every path to a return the reported status must follow from the facts of the path: readings that are still valid, the sum of the steps taken against the limit, the call that failed. The limits on steps and the convergence of the phases are not judged. '
        'The tolerance on the set voltage is the one of the settings.')
from vf.cyc import *
from checks_util import other

def run(ctx):
    ctx.rule = ('exits of rest, CC, CV, CCCV_with_tlim: ReachedVoltageLimit => the last reading is beyond the limit in the direction of the current; ReachedTimeLimit => sum of the steps >= limit; ReachedCurrentLimit => |I| < limit and V at its set value; ReachedSmallCurrent => |I| below a tenth of the limit or 1 uA and not so; '
                'timeStep_CC_failed <=> the step raised an error; other failures are the status of a failed operation; CV: each repetition ends with V within the safety limits; CC: with V within the limit; CCCV: CC towards the set voltage, CV for the remaining time')
    ctx.assume = ['real arithmetic', 'readings of the unit are numbers', 'step lengths and counts are not negative', 'calls of the unit do not change the local variables of the cycler']
    off = offsets(ctx)
    if off is None: ctx.undecided('ThroughputData', 'counters not found'); return
    k = safety(ctx); tol = tolerances(ctx)
    P, ns = load(ctx, ['rest', 'CC', 'CV'])
    for n in ns: phase(ctx, P, n, off, k, tol)
    P, ns = load(ctx, ['CCCV_with_tlim', 'CCCV'], never=[r'slide::Cycler::(CC|CV|rest)\('])
    for n in ns: combined(ctx, P, n, off)

def safety(ctx):
    r = {}
    for m, v in (('getSafetyVmin', 'VMIN'), ('getSafetyVmax', 'VMAX')):
        f = ctx.find(r'slide::Cycler::%s\(' % m)
        if not f: ctx.undecided(m, 'not found'); continue
        P = ctx.load([dict(name=m, cls='', fn=f[0]['name'])]); F = P.fn(m)
        a = ctx.ai(F, P, Unit({}), None)
        for e in a.exits:
            if e['kind'] != 'ret': continue
            t = topoly(e['val'])
            if len(t[1]) == 1 and len(t[1][0][0]) == 1:
                x = AT[t[1][0][0][0][0]]; c = t[1][0][1]
                if x[0] == 'call' and method(x[2]) == v:
                    good = (0 < c <= 1) if v == 'VMIN' else c >= 1
                    ctx.check('Cycler::%s outside the limits of the cell' % m, good, 'Cycler::%s is %s x %s, inside the voltage range of the unit' % (m, c, v), F.loc(e['I'])); r[v] = c
                    continue
            ctx.undecided('Cycler::' + m, show(t)[:80])
    return r

def tolerances(ctx):
    P = ctx.load([dict(name=n, cls='', fn=f['name']) for n in ('vfw_va', 'vfw_vr') for f in ctx.find(r'^%s\(' % n)]); r = {}
    for n in ('vfw_va', 'vfw_vr'):
        F = P.fn(n)
        for e in ctx.ai(F, P).exits: r[n] = topoly(e['val'])
    return r

class H(Unit):
    """keeps apart what decides the reported status"""
    vlim = None; I_ = None
    def preds(self, ai, st):
        r = []
        if self.I_ is not None:
            r += [ai.query(st, rel(self.I_, ZERO, LT, 15)), ai.query(st, rel(self.I_, ZERO, GT, 15))]
            for i in sorted(st.ps[0]):
                v = term(ai, i); r += [ai.query(st, rel(v, self.vlim, LT, 15)), ai.query(st, rel(v, self.vlim, GT, 15)), ai.query(st, rel(v, ZERO, GT, 15))]
        return tuple(r)

def half(x):
    return (-0.5, 4.49, 'int')

def time_of(S, a, st, hk):
    """the time stepped in terms of every carried value that counts it"""
    G = topoly(a.read(st, A(GH), 0)); r = [G]
    c = [y for m, _ in G[1] for y, _e in m if AT[y][0] == 'jm' and AT[y][1] == A(GH)]
    if len(c) != 1: return r
    hd = AT[c[0]][3]
    for x, (j, init, h2) in S.like.items():
        if j == 0 and h2 == hd: r.append(add(sub(sub(G, atom(c[0])), init), atom(x)))
    return r

def tri(ctx, qs):
    """the first decided answer: True wins"""
    if any(q is True for q in qs): return True
    return False if qs and all(q is False for q in qs) else None

def phase(ctx, P, n, off, k, tol):
    F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    m = n.split('::')[1]; st_ = P.enum('slide::Status'); N = {v: q for q, v in st_.items()} if st_ else {}
    C = {x: st_.get(x) for x in ('ReachedVoltageLimit', 'ReachedTimeLimit', 'ReachedCurrentLimit', 'ReachedSmallCurrent', 'timeStep_CC_failed', 'V_not_calculated', 'VMINsafety_violation', 'VMAXsafety_violation', 'Success')}
    if any(v is None for v in C.values()): ctx.undecided(n, 'statuses not found: %s' % [x for x in C if C[x] is None]); return
    h = H(off, full=(m == 'CV')); h.thb = A(('arg', [x for x in F.args if x['ty'] == 'ptr'][-1]['id']))
    d = [atom(('arg', x['id'])) for x in F.pargs if x['ty'] == 'double']
    if m == 'CC' and len(d) == 4: h.I_, h.vlim, tlim = d[0], d[1], d[2]
    elif m == 'CV' and len(d) == 4: Vset, Ilim, tlim = d[0], d[1], d[2]
    elif m == 'rest' and len(d) == 2: tlim = d[0]
    else: ctx.undecided(n, 'parameters not recognised'); return
    a = ctx.ai(F, P, h, 'slide::Cycler', loops=True)
    S = other('E02').Steps(a, h, n)
    def ask(st, b): return pit.implied(a, st, b, half)
    def AND(*q): return False if any(x is False for x in q) else True if all(x is True for x in q) else None
    def OR(*q): return True if any(x is True for x in q) else False if all(x is False for x in q) else None
    seen = set()
    def verdict(key, q, msg, e):
        if q is True: ctx.ok(key)
        elif q is False: ctx.violation(key, msg, F.loc(e['I']) if isinstance(e, dict) else e)
        else: ctx.undecided(key, 'path facts do not tell (%s)' % (F.loc(e['I']) if isinstance(e, dict) else e))
    def atset(st):
        """the last readings are at the set point (voltage, current below limit)"""
        r = []
        for v in [term(a, i) for i in st.ps[0]]:
            dv = fabs(sub(v, Vset)); va, vr = tol['vfw_va'], tol['vfw_vr']
            qv = [ask(st, B_or(rel(dv, va, LT, 15), rel(div(dv, Vset), vr, LT, 15)))]
            for c in [term(a, i) for i in st.ps[1]]: r.append((v, c, OR(*qv), ask(st, rel(fabs(c), Ilim, LT, 15)), OR(ask(st, B_or(rel(fabs(c), scale(Ilim, .1), LT, 15), rel(fabs(c), const(1e-6), LT, 15))))))
        return r
    for e in a.exits:
        if e['kind'] != 'ret': continue
        st = e['st']; v = topoly(e['val']); V = [term(a, i) for i in st.ps[0]]
        if not is_const(v):
            at_ = as_atom(v); t = AT[at_] if at_ is not None else ()
            key = '%s returns the status of the operation that failed' % n
            if t and t[0] == 'call' and method(t[2]) in ('setCurrent', 'setVoltage', 'checkVoltage', 'checkCurrent'):
                q = a.query(st, rel(v, const(C['Success']), EQ, 7))
                if st.ps[2] == 'failed': ctx.violation(key, '%s returns the status of %s after a time step failed' % (n, method(t[2])), F.loc(e['I']))
                elif q is False: ctx.ok(key)
                elif q is True: ctx.violation(key, '%s reports Success, which is no reason to stop' % n, F.loc(e['I']))
                else: 
                    f = st.facts.get(v); ctx.violation(key, '%s returns the status of %s although it may stand for success' % (n, method(t[2])), F.loc(e['I']))
            elif t and t[0] in ('j', 'jm', 'hv', 'undef', 'call'): ctx.undecided(key, show(v)[:80])
            else: ctx.violation(key, '%s returns %s' % (n, show(v)[:80]), F.loc(e['I']))
            continue
        c = int(cval(v)); c = c - 256 if c > 127 else c; name = N.get(c, c); key = '%s: %s' % (n, name)
        if st.ps[2] == 'failed':
            ctx.check(n + ': failed time step', c == C['timeStep_CC_failed'], '%s reports %s after a time step failed' % (n, name), F.loc(e['I'])); continue
        if c == C['timeStep_CC_failed']: ctx.violation(key, '%s reports a failed time step although none failed' % n, F.loc(e['I']))
        elif c == C['ReachedTimeLimit']:
            q = tri(ctx, [ask(st, rel(x, tlim, GT | EQ, 15)) for x in time_of(S, a, st, h)])
            verdict(key, q, '%s reports the time limit on a path on which the time stepped need not have reached it' % n, e)
        elif c == C['ReachedVoltageLimit'] and m == 'CC':
            qs = []
            for x in V: qs.append(OR(AND(ask(st, rel(h.I_, ZERO, LT, 15)), ask(st, rel(x, h.vlim, GT, 15))), AND(ask(st, rel(h.I_, ZERO, GT, 15)), ask(st, rel(x, h.vlim, LT, 15)))))
            verdict(key, tri(ctx, qs) if qs else False, '%s reports the voltage limit on a path on which the voltage need not have passed it in the direction of the current' % n, e)
        elif c == C['V_not_calculated']:
            verdict(key, tri(ctx, [ask(st, rel(x, ZERO, LT | EQ, 15)) for x in V]) if V else False, '%s reports that the voltage could not be computed although the last reading is positive' % n, e)
        elif c in (C['VMINsafety_violation'], C['VMAXsafety_violation']) and m == 'CV':
            w, mask = ('VMIN', LT) if c == C['VMINsafety_violation'] else ('VMAX', GT)
            qs = [ask(st, rel(x, scale(y, k.get(w, 0)), mask, 15)) for x in V for y in vcalls(a, w)]
            verdict(key, tri(ctx, qs) if qs else False, '%s reports %s on a path on which the voltage need not be beyond it' % (n, name), e)
        elif c == C['ReachedCurrentLimit'] and m == 'CV':
            r = atset(st)
            verdict(key, tri(ctx, [AND(x[2], x[3]) for x in r]) if r else False, '%s reports the current limit on a path on which the voltage need not be at its set value or the current below the limit' % n, e)
        elif c == C['ReachedSmallCurrent'] and m == 'CV':
            r = atset(st)
            verdict(key, tri(ctx, [x[4] for x in r]) if r else False, '%s reports a vanished current on a path on which the current need not be small' % n, e)
            q = [AND(x[2], x[3]) for x in r]
            if any(x is True for x in q): ctx.violation(key + ' away from the set value', '%s reports a vanished current although the voltage is at its set value' % n, F.loc(e['I']))
            elif any(x is False for x in q): ctx.ok(key + ' away from the set value')
            else: ctx.undecided(key + ' away from the set value', 'path facts do not tell')
        else: ctx.violation(key, '%s reports %s, which no fact of the path supports' % (n, name), F.loc(e['I']))
    # what every repetition leaves behind
    for (fr, to), sts in a.edges.items():
        if to not in F.loops or fr not in F.loops[to]['body']: continue
        for s in sts:
            if s.ps[2] != 'step': continue
            V = [term(a, i) for i in s.ps[0]]; where = F.loc(F.blocks[fr][-1])
            if m == 'CV':
                for w, mask in (('VMIN', GT | EQ | 8), ('VMAX', LT | EQ | 8)):
                    qs = [a.query(s, rel(x, scale(y, k.get(w, 0)), mask, 15)) for x in V for y in vcalls(a, w)]
                    key = '%s goes on only with V on the safe side of %s' % (n, w)
                    if any(q is True for q in qs): ctx.ok(key)
                    else: ctx.violation(key, '%s goes on after a step without knowing that the voltage is on the safe side of %s' % (n, w), where)
                r = atset(s); key = n + ' goes on only while its limit is not reached'
                q = [AND(x[2], x[3]) for x in r]
                if any(x is False for x in q): ctx.ok(key)
                elif any(x is True for x in q): ctx.violation(key, '%s goes on although its current limit is reached' % n, where)
                else: ctx.undecided(key, 'path facts do not tell')
            elif m == 'CC':
                key = n + ' goes on only within its voltage limit'
                neg, pos = ask(s, rel(h.I_, ZERO, LT, 15)), ask(s, rel(h.I_, ZERO, GT, 15))
                qs = []
                for x in V:
                    up = True if neg is False else ask(s, rel(x, h.vlim, LT | EQ | 8, 15)); dn = True if pos is False else ask(s, rel(x, h.vlim, GT | EQ | 8, 15))
                    qs.append(AND(up, dn))
                if any(q is True for q in qs): ctx.ok(key)
                else: ctx.violation(key, '%s goes on after a step on a path on which the voltage may be beyond its limit' % n, where)

def B_or(x, y): return T.bor(x, y)

def vcalls(a, w):
    return [atom(('call', I['id'], I['dem'])) for b in a.F.rpo for I in a.F.blocks[b] if I['op'] in ('call', 'invoke') and method(I.get('dem') or '') == w]

def combined(ctx, P, n, off):
    F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    h = Unit(off, full=True); h.thb = A(('arg', [x for x in F.args if x['ty'] == 'ptr'][-1]['id']))
    d = [atom(('arg', x['id'])) for x in F.pargs if x['ty'] == 'double']; tl = len(d) == 5
    if len(d) not in (4, 5): ctx.undecided(n, 'parameters not recognised'); return
    I_, Vset, Ilim = d[0], d[1], d[2]
    a = ctx.ai(F, P, h, 'slide::Cycler'); E = P.enum('slide::Status')
    ccs = {}
    for I, st, args in a.sites:
        m = I['op'] in ('call', 'invoke') and (I.get('dem') or '').startswith('slide::Cycler::') and method(I['dem'])
        if m == 'CC':
            key = n + ' (dis)charges towards the set voltage'; cur = topoly(args[1]); ok = None
            for i in st.ps[0]:
                v = term(a, i)
                if pit.implied(a, st, rel(v, Vset, GT, 15), half) is True: ok = cur == fabs(I_)
                elif pit.implied(a, st, rel(v, Vset, LT | EQ, 15), half) is True: ok = sub(ZERO, cur) == fabs(I_)
                else:
                    w = atom(('sel', rel(v, Vset, GT, 15), fabs(I_), sub(ZERO, fabs(I_))))
                    q = pit.equal(cur, w, st, lambda x: (0, 5, 'int')) if w is not None else None
                    ok = q if ok is None else ok
            if ok is True: ctx.ok(key)
            elif ok is None: ctx.undecided(key, show(cur)[:80])
            else: ctx.violation(key, '%s starts its first phase with current %s' % (n, show(cur)[:80]), F.loc(I))
            ctx.check(n + ' CC to the set voltage', topoly(args[2]) == Vset, '%s runs its first phase to %s' % (n, show(args[2])[:60]), F.loc(I))
            ccs[I['id']] = topoly(args[3])
        elif m == 'CV':
            ctx.check(n + ' CV at the set voltage', topoly(args[1]) == Vset and topoly(args[2]) == fabs(Ilim), '%s holds %s down to %s' % (n, show(args[1])[:60], show(args[2])[:60]), F.loc(I))
            did = [c for c in ccs]
            key = n + ' CV for the remaining time'
            if tl:
                w = sub(d[3], atom(('did', did[0], 'time'))) if did else d[3]; q = topoly(args[3]) == w or pit.equal(topoly(args[3]), w) is True
                ctx.check(key, q, '%s gives its second phase %s' % (n, show(args[3])[:80]), F.loc(I))
                ctx.check(n + ' CC for the given time', ccs.get(did[0]) == d[3] if did else True, '%s gives its first phase another time limit' % n, F.loc(I))
    for e in a.exits:
        if e['kind'] != 'ret': continue
        st = e['st']; v = topoly(e['val']); t = AT[as_atom(v)] if as_atom(v) is not None else (); key = n + ' reports its last phase'
        did = {AT[y][1] for y in T.atoms(topoly(a.read(st, A(GH), 0))) if AT[y][0] == 'did'}
        cvs = [i for i in did if method(F.ins[i].get('dem') or '') == 'CV']
        if did and cvs: ctx.check(key, t and t[0] == 'call' and t[1] in cvs, '%s returns %s instead of the status of its constant-voltage phase' % (n, show(v)[:60]), F.loc(e['I']))
        elif did: ctx.check(key, t and t[0] == 'call' and t[1] in did and a.query(st, rel(v, const(3), GT | EQ, 7)) is True, '%s stops after its first phase and returns %s' % (n, show(v)[:60]), F.loc(e['I']))
        elif is_const(v):
            vs = [x for w in ('Vmin', 'Vmax') for x in vcalls(a, w)]
            lo, hi = vcalls(a, 'Vmin'), vcalls(a, 'Vmax')
            q = any(a.query(st, rel(Vset, x, LT, 15)) is True for x in lo) or any(a.query(st, rel(Vset, x, GT, 15)) is True for x in hi)
            ctx.check(n + ' refuses a set voltage only outside the range', int(cval(v)) in (E['Invalid_Vset'], E['Invalid_Vset'] + 256) and q, '%s returns %s without a phase' % (n, show(v)), F.loc(e['I']))
        else:
            q = t and t[0] == 'call' and method(t[2]) == 'setCurrent' and a.query(st, rel(v, ZERO, EQ, 7)) is False
            ctx.check(n + ' reports why it could not start', q, '%s returns %s without a phase' % (n, show(v)[:60]), F.loc(e['I']))
