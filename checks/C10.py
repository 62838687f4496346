"""C10: pack aggregates follow the circuit."""
TECH = 'value numbering with loop-reduction recognition: aggregates put in closed form over the member vector'
NOTE = 'Each aggregate of both module kinds and of the battery is reduced to a closed form (sum, minimum, maximum over a proved index range) and compared with the circuit rule.'
from vf.core import *
from vf.agg import *

def run(ctx):
    ctx.rule = ('the value returned by every aggregate of a pack is put in closed form (sum / minimum / maximum over the member vector with proved index range 0..n-1, '
                'loop carried values solved from their recurrence) and must be identical to the circuit rule of that pack kind; a parallel ladder resistance is checked as recurrence')
    ctx.assume = ['members do not change the member vector of their owner', 'real arithmetic', 'std algorithms inlined from the installed libstdc++']
    MS = 'Module_s'; MP = 'Module_p'
    spec = {
      MS: dict(getOCV=lambda g: g.SUM(g.elem('getOCV')), Vmin=lambda g: g.SUM(g.elem('Vmin')), VMIN=lambda g: g.SUM(g.elem('VMIN')), Vmax=lambda g: g.SUM(g.elem('Vmax')),
               VMAX=lambda g: g.SUM(g.elem('VMAX')), Cap=lambda g: g.MIN(g.elem('Cap')), I=lambda g: ('any', 'I'),
               getRtot=lambda g: g.SUM(add(g.elem('getRtot'), g.ld('Rcontact'))),
               V=lambda g: g.SUM(sub(g.elem('V'), mul(g.ld('Rcontact'), g.elem('I'))))),
      MP: dict(I=lambda g: g.SUM(g.elem('I')), Cap=lambda g: g.SUM(g.elem('Cap')), Vmin=lambda g: g.MAX(g.elem('Vmin')), VMIN=lambda g: g.MAX(g.elem('VMIN')),
               Vmax=lambda g: g.MIN(g.elem('Vmax')), VMAX=lambda g: g.MIN(g.elem('VMAX')), getOCV=lambda g: div(g.SUM(g.elem('getOCV')), g.n()),
               V=lambda g: sub(g.first('V'), mul(atom(('E', as_base(g, 'Rcontact'), 0)), g.SUM(g.elem('I')))), getRtot='ladder'),
    }
    roots = []
    for c, d in spec.items(): roots += ctx.roots(c, list(d) + ['getVhigh', 'getVlow', 'getThotSpot'])
    bm = ['Cap', 'Vmin', 'VMIN', 'Vmax', 'VMAX', 'I', 'getRtot', 'getOCV', 'V', 'getNcells', 'getThotSpot', 'T', 'setCurrent']
    P = ctx.load(roots)
    PB = ctx.load(ctx.roots('Battery', bm), opaque=[r'slide::linInt', r'slide::Module::'], force=[r'^slide::Battery::'])
    for c, d in spec.items():
        for m, ex in d.items():
            F = P.fn(c + '::' + m)
            if F is None: ctx.undecided(c + '::' + m, 'not found'); continue
            g = Agg(ctx, F, P, 'slide::' + c)
            if ex == 'ladder': ladder(ctx, g, c, m); continue
            compare(ctx, g, c, m, ex(g), F)
        for m, op in (('getVhigh', 'MAX'), ('getVlow', 'MIN'), ('getThotSpot', 'MAX')):
            F = P.fn(c + '::' + m)
            if F is None: ctx.undecided(c + '::' + m, 'not found'); continue
            g = Agg(ctx, F, P, 'slide::' + c)
            extreme(ctx, g, c, m, op, F)
    battery(ctx, PB)

def as_base(g, name): return A(('E', g.ai.this, g.field(name)))

def rets(g):
    for e in g.ai.exits:
        if e['kind'] == 'ret': yield e['st'], g.expand(e['val'], e['st']), e['I']

def unresolved(g, v):
    bad = []
    for a in T.atoms(v):
        x = AT[a]
        if x[0] in ('j', 'jm', 'hv', 'ldx', 'part', 'kappa', 'sel', 'undef', 'call'): bad.append(show(atom(a)))
    return bad

def compare(ctx, g, c, m, want, F):
    name = '%s::%s' % (c, m); n = 0
    for st, v, I in rets(g):
        if is_const(v) and cval(v) == 0 and g.empty(st): continue
        if m == 'V':
            off = g.field('Vmodule'); vo = g.field('Vmodule_valid')
            if off is not None and v == g.entry(off):
                q = g.ai.query(st, rel(g.entry(vo), ZERO, LT | GT, 7)); q2 = st.bf.get(tobool(g.entry(vo)))
                ok = q is True or q2 is True or g.ai.query(st, tobool(g.entry(vo))) is True
                ctx.check(name + ' remembered', ok, '%s returns the remembered voltage at %s without checking that it is valid' % (name, F.loc(I)), F.loc(I)); continue
            if is_const(v) and cval(v) == 0 and any_nonpositive(g, st): continue
        if isinstance(want, tuple) and want[0] == 'any':
            ok = as_atom(v) is not None and AT[as_atom(v)][0] == 'm' and AT[as_atom(v)][1] == want[1]
            n += 1; ctx.check(name, ok, '%s returns %s instead of the %s of one member' % (name, show(v), want[1]), F.loc(I)); continue
        u = unresolved(g, v)
        if v == want: n += 1; ctx.ok(name, show(v)); continue
        if u: 
            w = early(g, v, st)
            if w: ctx.violation(name + ' early', '%s: the loop over the members can be left early (%s), so not every member counts' % (name, w), w)
            else: ctx.undecided(name, 'value %s not resolved' % show(v))
            continue
        ctx.violation(name, '%s returns %s, the circuit rule is %s' % (name, show(v), show(want)), F.loc(I))
    return n

def early(g, v, st):
    for a in T.atoms(v):
        x = AT[a]
        if x[0] in ('j', 'jm'):
            c = g.L.carried(a)
            if c and c[1]:
                h = c[0]; F = g.F
                for (b, s) in F.loops[h]['exits']:
                    if F.blocks[b][-1]['op'] == 'br' and b != h and not any(bb == b for bb, N in g.L.trip(h)): return F.loc(F.blocks[b][-1])
    return None

def any_nonpositive(g, st):
    for v, f in st.facts.items():
        if f[2] <= 0 and not f[4] or f[2] <= 0:
            for a in T.atoms(v):
                if AT[a][0] == 'call' and method(AT[a][2]) == 'V' and v == atom(a): return True
    return False

def extreme(ctx, g, c, m, op, F):
    name = '%s::%s' % (c, m)
    for st, v, I in rets(g):
        if g.empty(st): continue
        if m != 'getThotSpot' and is_const(v) and cval(v) == 0: ctx.undecided(name, 'zero returned'); continue
        if v == atom((op, g.elem(m), g.n())): ctx.ok(name); continue
        a = as_atom(v); x = AT[a] if a is not None else None
        if x and x[0] == 'fn' and x[1] in ('max', 'min') and x[1].upper() == op:
            inner = [y for y in x[2:] if as_atom(y) is not None and AT[as_atom(y)][0] == op]
            if inner: x = AT[as_atom(inner[0])][:3] + (next(y for y in x[2:] if y is not inner[0]),)
        if x and x[0] == op and x[1] == g.elem(m) and x[2] == g.n() and len(x) == 4:
            i0 = x[3]
            if m == 'getThotSpot':
                good = temperature(i0) or (is_const(i0) and cval(i0) <= 0)
                ctx.check(name, good, '%s starts the maximum from %s, which is no temperature of the pack' % (name, show(i0)), F.loc(I))
                if is_const(i0): ctx.violation(name + ' own', '%s does not include the temperature of the pack itself' % name, F.loc(I))
            else:
                good = is_const(i0) and (cval(i0) <= 0 if op == 'MAX' else cval(i0) >= 1e6)
                ctx.check(name, good, '%s starts the %s from %s, so the result need not be the voltage of any cell' % (name, op, show(i0)), F.loc(I))
            continue
        if unresolved(g, v):
            w = early(g, v, st)
            if w: ctx.violation(name + ' early', '%s: the loop over the members can be left early (%s)' % (name, w), w)
            else: ctx.undecided(name, 'value %s not resolved' % show(v))
        else: ctx.violation(name, '%s returns %s instead of the %s over all members' % (name, show(v), op), F.loc(I))

def temperature(t):
    a = as_atom(t)
    if a is None: return False
    x = AT[a]
    if x[0] == 'm': return x[1] == 'T'
    return x[0] in ('E', 'ldm', 'ld', 'call')

def ladder(ctx, g, c, m):
    name = '%s::%s' % (c, m); F = g.F; L = g.L
    for st in [e for e in g.ai.exits if e['kind'] == 'ret']:
        v = L.norm(topoly(st['val']))
        if is_const(v) and cval(v) == 0 and g.empty(st['st']): continue
        a = as_atom(v); cr = L.carried(a) if a is not None else None
        if not cr or not cr[1]: ctx.undecided(name, 'value %s is no loop result' % show(v)); continue
        h, info = cr; K = L.k(h)
        ini = {L.norm(x) for x in info['init']}; upd = {L.norm(x) for x in info['upd']}
        Ns = {N for x, N in g.left_by_count(h, st['st'])}
        if len(ini) != 1 or len(upd) != 1 or len(Ns) != 1: ctx.undecided(name, 'recurrence not recognised'); continue
        i0, u, N = next(iter(ini)), next(iter(upd)), next(iter(Ns))
        b, e = g.seq('SUs'); rb, re_ = g.seq('Rcontact'); n = g.n()
        last = add(atom(('m', 'getRtot', sub(e, const(8)), ())), atom(('ldm', sub(re_, const(8)))))
        last2 = add(atom(('m', 'getRtot', sub(e, const(8)), ())), atom(('ldm', add(rb, scale(sub(n, ONE), 8)))))
        last3 = add(atom(('m', 'getRtot', sub(e, const(8)), ())), atom(('E', A(('E', g.ai.this, g.field('Rcontact') + 8)), -8)))
        ctx.check(name + ' last', i0 in (last, last2, last3), '%s starts from %s instead of the branch of the last member with its contact' % (name, show(i0)), F.loc(st['I']))
        idx = sub(sub(n, const(2)), atom(K)); j = atom(a)
        r = atom(('m', 'getRtot', add(b, scale(idx, 8)), ())); rc = atom(('ldm', add(rb, scale(idx, 8))))
        want = add(rc, div(mul(r, j), add(r, j)))
        ctx.check(name + ' step', u == want, '%s combines %s instead of contact + member parallel to the rest (%s)' % (name, show(u), show(want)), F.loc(st['I']))
        ctx.check(name + ' range', N == sub(n, ONE), '%s combines %s branches after the last one, expected n-1' % (name, show(N)), F.loc(st['I']))

def battery(ctx, P):
    one = {'Cap': ('Cap', 0, 1), 'Vmin': ('Vmin', 1, 0), 'VMIN': ('VMIN', 1, 0), 'Vmax': ('Vmax', 1, 0), 'VMAX': ('VMAX', 1, 0), 'I': ('I', 0, 1), 'getRtot': ('getRtot', 1, -1),
           'getOCV': ('getOCV', 1, 0), 'V': ('V', 1, 0), 'getNcells': ('getNcells', 1, 1)}
    for m, (inner, es, ep) in one.items():
        F = P.fn('Battery::' + m)
        if F is None: ctx.undecided('Battery::' + m, 'not found'); continue
        g = Agg(ctx, F, P, 'slide::Battery'); name = 'Battery::' + m
        ns, np_ = g.entry(g.field('nseries')), g.entry(g.field('nparallel')); co = g.field('cells')
        cell = atom(('m', inner, topoly(('ptr', g.ai.this, const(co))), ()))
        want = cell
        for t, e in ((ns, es), (np_, ep)):
            want = mul(want, t) if e == 1 else div(want, t) if e == -1 else want
        n = 0
        for st, v, I in rets(g):
            n += 1
            if v != want and (inner_term(v, inner) is None or unresolved(g, v)): ctx.undecided(name, 'value %s' % show(v))
            else: ctx.check(name, v == want, '%s returns %s, expected %s' % (name, show(v), show(want)), F.loc(I))
    F = P.fn('Battery::setCurrent')
    if F:
        g = Agg(ctx, F, P, 'slide::Battery'); np_ = g.entry(g.field('nparallel'))
        want = div(atom(('arg', F.args[1]['id'])), np_)
        for I, st, args in g.ai.sites:
            if method(I.get('dem', '')) == 'setCurrent':
                v = g.L.norm(args[1]); ctx.check('Battery::setCurrent share', v == want, 'Battery::setCurrent passes %s to its module, expected the current over the parallel count' % show(v), F.loc(I))
    F = P.fn('Battery::getThotSpot')
    if F:
        g = Agg(ctx, F, P, 'slide::Battery'); co = g.field('cells')
        cell = atom(('m', 'getThotSpot', topoly(('ptr', g.ai.this, const(co))), ()))
        for st, v, I in rets(g):
            a = as_atom(v); x = AT[a] if a is not None else ()
            ok = x and x[0] == 'fn' and x[1] == 'max' and cell in x[2:]
            ctx.check('Battery::getThotSpot', bool(ok), 'Battery::getThotSpot returns %s' % show(v), F.loc(I))

def inner_term(v, m):
    for a in T.atoms(v):
        if AT[a][0] == 'm' and AT[a][1] == m: return a
    return None
