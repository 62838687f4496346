"""F04: interpolation never reads outside its table."""
TECH = 'abstract interpretation with symbolic index bounds (facts, case splits, induction over loop-carried indices)'
NOTE = 'Every element read of every instantiation of the interpolation functions is proved inside the table under the precondition of a table with at least one entry; returned values are matched with the documented ones.'
from vf.core import *
from vf.dtab import Paths
from vf.bounds import Bounds
from vf.loops import subst_atoms, method
from vf import term as T

class H(Paths):
    collect = True; loads = True
    def __init__(self): self.lb = {}
    def key(self, ai, st, blk):
        return None if blk in ai.F.loops else Paths.key(self, ai, st, blk)
    def call(self, ai, st, I, callee, args):
        m = re.search(r'std::(?:ranges::)?(lower_bound|upper_bound)<', callee); m = m.group(1) if m else ''
        if m in ('lower_bound', 'upper_bound') and len(args) >= 3:
            f, l, v = toptr(args[0]), toptr(args[1]), toptr(args[2])
            if f[1] != l[1]: return None
            n = scale(sub(l[2], f[2]), 0.125); r = atom(('lb', I['id']))
            x = topoly(ai.load(st, v, 8, I)); first = topoly(ai.load(st, f, 8, I)); last = topoly(ai.load(st, ('ptr', l[1], add(l[2], const(-8))), 8, I))
            s = [y for z in ai.assume(st, rel(r, ZERO, GT | EQ, 7), True) for y in ai.assume(z, rel(sub(n, r), ZERO, GT | EQ, 7), True)]
            st0 = st; st = ordered(ai, st, x, (first, last))
            # every entry before r lies before x, the entry r does not
            o = (GT,) if m == 'lower_bound' else (GT | EQ,)
            if ai.query(st, rel(x, first, o[0], 15)): s = [y for z in s for y in ai.assume(z, rel(r, ONE, GT | EQ, 7), True)]
            if ai.query(st, rel(x, last, LT, 15)) or m == 'lower_bound' and ai.query(st, rel(x, last, LT | EQ, 15)): s = [y for z in s for y in ai.assume(z, rel(sub(n, r), ONE, GT | EQ, 7), True)]
            self.lb[as_atom(r)] = m
            return [(z, ('ptr', f[1], add(f[2], scale(r, 8))), 'ret') for z in s]
        return None
    def may_throw(self, ai, st, I, callee): return False

def ordered(ai, st, x, ys):
    """comparisons of numbers: the point and the table entries are not NaN"""
    for y in ys:
        r = rel(x, y, LT, 15)
        if r[1] != 'rel' or nan(ai, st, x): continue
        s = ai.assume(st, ('B', 'rel', r[2], r[3], 7, 15), True)
        if s: st = s[0]
    return st

def run(ctx):
    ctx.rule = ('linInt with its search inlined, for every table type it is used with: an error iff bounds are to be checked and the point lies outside; the end value outside; inside exactly y_l+(y_r-y_l)(x-x_l)/(x_r-x_l) '
                'of two neighbouring entries; every table access is proved to lie in 0..n-1 by interval facts and induction over the search loops; below and above have different status')
    ctx.assume = ['the table has at least one entry, increasing x and as many entries as the caller says', 'std::lower_bound / upper_bound behave as specified', 'real arithmetic']
    names = {}
    for f in ctx.find(r'slide::linInt_noexcept<'):
        if 'FixedData' in f['dem']: continue
        names['status ' + short(f['dem'])] = f['name']
    for f in ctx.find(r'double slide::linInt<'):
        if 'FixedData' in f['dem']: continue
        names['value ' + short(f['dem'])] = f['name']
    if not names: ctx.undecided('linInt', 'not found'); return
    P = ctx.load([dict(name=k, cls='', fn=v) for k, v in names.items()], opaque=[r'std::(lower|upper)_bound'], force=['slide::linInt'])
    for k in names:
        F = P.fn(k)
        if F is None: ctx.undecided(k, 'not found'); continue
        one(ctx, P, F, k, k.startswith('status'))

def short(d):
    m = re.search(r'<(.*?)[ ,>]', d[d.index('linInt'):]); return m.group(1).replace('std::', '') + ('' if ' const' not in d[:d.index('(')] else ' const')

def one(ctx, P, F, k, status):
    h = H(); a = ctx.ai(F, P, h, None, loops=True)
    ps = [x for x in F.args if x['ty'] == 'ptr'][-2:]
    ints = [x for x in F.args if x['ty'] == 'i32']; ds = [x for x in F.args if x['ty'] == 'double']; bs = [x for x in F.args if x['ty'] == 'i1']
    if len(ps) != 2 or len(ints) != 1 or len(ds) != 1: ctx.undecided(k, 'signature not recognised'); return
    X, Y = A(('arg', ps[0]['id'])), A(('arg', ps[1]['id'])); n = atom(('arg', ints[0]['id'])); x = atom(('arg', ds[0]['id']))
    bound = tobool(atom(('arg', bs[0 if status else 1]['id'])))
    base = {}      # base atom -> 'x' / 'y'
    for I, st, p in a.loadsites:
        for nm, B in (('x', X), ('y', Y)):
            if p[1] == B and not is_const(p[2]): base[p[1]] = nm
            if AT[p[1]] == ('E', B, 0): base[p[1]] = nm
        if p[1] in (X, Y) and AT[p[1]][0] == 'arg' and I['ty'] == 'double': base[p[1]] = 'x' if p[1] == X else 'y'
    xb = [b for b in base if base[b] == 'x']; yb = [b for b in base if base[b] == 'y']
    if len(xb) != 1 or len(yb) != 1: ctx.undecided(k, 'table storage not recognised'); return
    xb, yb = xb[0], yb[0]
    ld = lambda b, i: atom(('E', b, int(cval(i)) * 8)) if is_const(i) else atom(('ld', b, scale(i, 8), ()))
    first, last = ld(xb, ZERO), ld(xb, sub(n, ONE))
    pos = [rel(n, ONE, GT | EQ, 7)]
    def bounds(st):
        ex = list(pos); st = ordered(a, st, x, (first, last))
        # a point strictly inside needs two entries
        if a.query(st, rel(x, first, GT, 15)) and a.query(st, rel(x, last, LT, 15)): ex.append(rel(n, const(2), GT | EQ, 7))
        return Bounds(a, ex)
    # accesses
    done = set(); bad = set()
    for I, st, p in a.loadsites:
        if p[1] not in base: continue
        ctx.analysed['call_sites'] += 1
        i = scale(p[2], 0.125); B = bounds(st)
        if not B.states(st): continue
        for what, d in (('before the first', i), ('behind the last', sub(sub(n, ONE), i))):
            q = B.ge0(st, d); nm = '%s entry %s' % (k, F.loc(I))
            if q: ctx.ok('%s not %s' % (nm, what))
            elif q is None: ctx.undecided(nm, 'cannot bound index %s' % show(i))
            elif (I['id'], what) not in bad:
                bad.add((I['id'], what))
                ctx.violation('%s reads %s entry' % (k, what), '%s: index %s of table %s can lie %s entry (%s)' % (k, show(i), base[p[1]], what, F.loc(I)), F.loc(I))
    # outcomes
    for e in a.exits:
        st = ordered(a, e['st'], x, (first, last))
        if e['kind'] == 'ret' and e['val'][0] == 'agg': v, s = topoly(e['val'][1][0][1]), topoly(dict(e['val'][1]).get((1,), ZERO))
        elif e['kind'] == 'ret': v, s = topoly(e['val']), ZERO
        else: v, s = None, None
        lo, hi = rel(x, first, LT, 15), rel(x, last, GT, 15)
        ql, qh, qb = a.query(st, lo), a.query(st, hi), a.query(st, bound)
        err = e['kind'] != 'ret' or (status and s != ZERO)
        if status and e['kind'] != 'ret': ctx.violation(k + ' raises', '%s raises an error' % k, F.loc(e['I'])); continue
        out = ql is True or qh is True
        if err:
            if qb is None or (ql is None and qh is None): 
                ctx.violation(k + ' error', '%s reports an error without having found the point outside the table with bounds to be checked' % k, F.loc(e['I'])); continue
            ctx.check(k + ' error', qb and out, '%s reports an error for a point inside the table or although bounds are not to be checked' % k, F.loc(e['I']))
            if status: ctx.check(k + ' side', is_const(s) and (cval(s) < 0 and ql is True or cval(s) > 0 and ql is not True), '%s reports status %s for a point %s the table' % (k, show(s), 'below' if ql else 'above'), F.loc(e['I']))
            continue
        if qb is not False and out:
            ctx.violation(k + ' bounds', '%s returns %s for a point outside the table although bounds may have to be checked' % (k, show(v)), F.loc(e['I'])); continue
        if qb is not False and (ql is None or qh is None) and not nan(a, st, x):
            ctx.violation(k + ' bounds', '%s does not look at both ends of the table before returning %s' % (k, show(v)), F.loc(e['I'])); continue
        if nan(a, st, x): ctx.ok(k + ' not a number'); continue
        le, ge = a.query(st, rel(x, first, LT | EQ, 15)), a.query(st, rel(x, last, GT | EQ, 15))
        if le is True: ctx.check(k + ' lower end', v == ld(yb, ZERO), '%s returns %s at or below the first entry' % (k, show(v)), F.loc(e['I'])); continue
        if ge is True: ctx.check(k + ' upper end', v == ld(yb, sub(n, ONE)), '%s returns %s at or above the last entry' % (k, show(v)), F.loc(e['I'])); continue
        v = subst_atoms(v, lambda q: x if AT[q][0] == 'hv' and False else None)
        idx = {scale(AT[q][2], 0.125) for q in T.atoms(v) if AT[q][0] == 'ld' and AT[q][1] == yb}
        if not idx or len(idx) != 2: ctx.undecided(k + ' inside', 'entries used: %s' % [show(i) for i in idx]); continue
        i, j = sorted(idx, key=lambda q: 0 if is_const(sub(q, next(iter(idx - {q})))) and cval(sub(q, next(iter(idx - {q})))) > 0 else 1)
        d = sub(i, j)
        ctx.check(k + ' neighbours', is_const(d) and abs(cval(d)) == 1, '%s combines the entries %s and %s' % (k, show(i), show(j)), F.loc(e['I']))
        xr, xl, yr, yl = ld(xb, i), ld(xb, j), ld(yb, i), ld(yb, j)
        want = add(yl, div(mul(sub(yr, yl), sub(x, xl)), sub(xr, xl)))
        eq = v == want or clears(sub(v, want), sub(xr, xl))
        ctx.check(k + ' inside', eq, '%s returns %s between two entries, expected %s' % (k, show(v), show(want)), F.loc(e['I']))

def clears(d, den):
    """d == 0 after multiplying with the denominator"""
    iv = T.inv(den); m0, c0 = iv[1][0]
    ia = m0[0]
    A0, B0 = ZERO, ZERO
    for m, c in d[1]:
        if ia in m: B0 = add(B0, ('P', ((tuple(q for q in m if q != ia), c / c0),)))
        elif any(q[0] == ia[0] for q in m): return False
        else: A0 = add(A0, ('P', ((m, c),)))
    return add(mul(A0, den), B0) == ZERO

def nan(a, st, x):
    return a.query(st, rel(x, ZERO, 8, 15)) is True or a.query(st, ('B', 'rel', x, 0.0, 8, 15)) is True
