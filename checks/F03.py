"""F03: a histogram counts every sample exactly once."""
TECH = 'abstract interpretation with symbolic bounds and decision table of the bin chosen'
NOTE = 'Every store of Histogram::add is bounded and its bin compared with the documented bin for samples below, above and inside the range.'
from vf.core import *
from vf.dtab import Paths, cases, dedupe
from vf.loops import subst_atoms
from vf import term as T

def run(ctx):
    ctx.rule = ('on every path of add exactly one bin is written, with its old value plus one, or none at all when there are no bins; the index, in closed form, is classified per case of the sample '
                '(below, inside, above the range) and must be the first, enclosing or last bin; the constructor must leave two bins more than intervals and the bin width (max-min)/intervals')
    ctx.assume = ['real arithmetic', 'a sample that is not a number may go to any existing bin', 'bins are only changed through add']
    P = ctx.load([dict(name='add', cls='', re=r'^slide::Histogram<.*>::add\('), dict(name='ctor', cls='', re=r'^slide::Histogram<.*>::Histogram\(double, double, int\)')])
    cls = next((c for c in P.classes if c.startswith('slide::Histogram<')), None)
    F = P.fn('add'); G = P.fn('ctor')
    if F is None or G is None or cls is None: ctx.undecided('Histogram', 'add or constructor not found'); return
    fo = {}
    for n in ('bins', 'x_min', 'x_max', 'dx', 'Nbins'):
        f = P.field(cls, n)
        if f is None and n != 'Nbins': ctx.undecided('Histogram', 'member %s not found' % n); return
        fo[n] = f[0] if f else None
    # constructor
    g = ctx.ai(G, P, Paths()); x0, x1, nb = [atom(('arg', a['id'])) for a in G.args[1:4]]
    for e in g.exits:
        if e['kind'] != 'ret': continue
        s = e['st']; rd = lambda o: topoly(g.read(s, g.this, o))
        size = sub(rd(fo['bins'] + 8), rd(fo['bins']))
        # paths for particular counts: evaluate both sides under the fact about the count
        lo, hi = g.ival(s, nb)
        fix = lambda t: subst_atoms(topoly(t), lambda a: const(lo) if lo == hi and a == as_atom(nb) else None)
        want = fix(add(const(16), scale(nb, 8)))
        ctx.check('constructor number of bins', fix(size) == want, 'a histogram with n intervals is built with %s/8 bins instead of n+2' % show(size), G.loc(e['I']))
        if lo == hi and lo <= 0: continue
        for n, w in (('x_min', x0), ('x_max', x1), ('dx', div(sub(x1, x0), nb))) + ((('Nbins', nb),) if fo['Nbins'] is not None else ()):
            ctx.check('constructor ' + n, rd(fo[n]) == w, 'the constructor sets %s to %s instead of %s' % (n, show(rd(fo[n])), show(w)), G.loc(e['I']))
    # add
    a = ctx.ai(F, P, Paths()); th = a.this; x = atom(('arg', F.args[1]['id']))
    E = lambda o: atom(('E', th, o)); beg, end = topoly(ptr(('E', th, fo['bins']))), topoly(ptr(('E', th, fo['bins'] + 8)))
    n = scale(sub(end, beg), 0.125)
    pos = div(sub(x, E(fo['x_min'])), E(fo['dx']))
    norm = lambda t: subst_atoms(topoly(t), lambda q: sub(n, const(2)) if fo['Nbins'] is not None and AT[q] == ('E', th, fo['Nbins']) else None)
    top = sub(n, const(2))
    preds = {'no bins': rel(n, ZERO, EQ, 7), 'below': rel(pos, ZERO, LT, 15), 'inside or above': rel(pos, ZERO, GT | EQ, 15), 'above': rel(pos, top, GT | EQ, 15), 'under the maximum': rel(pos, top, LT, 15)}
    base = A(('E', th, fo['bins'])); seen = set()
    for e in a.exits:
        if e['kind'] != 'ret': ctx.violation('add raises', 'adding a sample can raise an error', F.loc(e['I'])); continue
        st = e['st']
        for b, off, size, why in [(b, x[0], x[1], '') for b in st.mem for x in a.changed(st, b) if AT[b][0] not in ('alloca', 'new') and b != base]:
            ctx.violation('add writes elsewhere', 'adding a sample also changes something else than a bin (offset %s)' % off, F.loc(e['I']))
        o = st.mem.get(base)
        w = []
        if o is not None:
            w = [(const(k), v) for k, (v, s) in o.cells.items()] + [(k, v) for k, (v, s) in o.var.items()]
            ns = len({b[2] for b in o.bumps}) if o.var else 0
        stores = w
        cs = list(dedupe(cases(a, st, preds) or []))
        # conditions may be written against the remembered number of intervals
        for d, s in cs:
            if d['no bins']:
                if any(st2 for st2 in [s]) and stores: ctx.violation('add without bins', 'a sample is counted in a histogram that has no bins (memory outside it is touched)', F.loc(e['I']))
                else: ctx.ok('add without bins')
                continue
            if d['below'] and d['inside or above'] or d['above'] and d['under the maximum']: continue
            n1, n2 = not d['below'] and not d['inside or above'], not d['above'] and not d['under the maximum']
            if n1 != n2: continue        # comparisons with something that is not a number fail together
            nan = n1
            if len(stores) == 0:
                ctx.violation('add counts nothing', 'a sample %s is counted in no bin' % case(d, nan), F.loc(e['I'])); continue
            if len(stores) > 1:
                ctx.violation('add counts twice', 'a sample %s changes more than one bin' % case(d, nan), F.loc(e['I'])); continue
            off, v = stores[0]
            inc = sub(topoly(v), a.default(base, int(cval(off))) if is_const(off) else atom(('ld', base, off, ())))
            ctx.check('add increment', inc == ONE, 'a bin is changed by %s instead of one' % show(inc), F.loc(e['I']))
            idx = norm(scale(off, 0.125)); k = classify(idx, pos, n, norm)
            if nan:
                if k in ('first', 'last'): ctx.ok('add not a number')
                elif k == 'enclosing': ctx.violation('add not a number', 'a sample that is not a number is counted in an undefined bin', F.loc(e['I']))
                continue
            if d['below'] and d['above']: continue      # less than two bins
            want = 'first' if d['below'] else 'last' if d['above'] else 'enclosing'
            if k is None: ctx.undecided('add ' + want, 'bin index %s not recognised' % show(idx)); continue
            ctx.check('add %s: %s' % (case(d, nan), want), k == want, 'a sample %s is counted in the %s instead of the %s bin' % (case(d, nan), k, want), F.loc(e['I']))

def case(d, nan):
    return 'that is not a number' if nan else 'below the range' if d['below'] else 'above the range' if d['above'] else 'inside the range'

def classify(idx, pos, n, norm):
    if idx == ZERO: return 'first'
    if idx == sub(n, ONE): return 'last'
    for at in T.atoms(idx):
        x = AT[at]
        if x[0] == 'fn' and x[1] in ('trunc', 'floor'):
            arg = norm(x[2])
            if as_atom(arg) is not None and AT[as_atom(arg)][0] == 'fn' and AT[as_atom(arg)][1] in ('trunc', 'floor'): arg = norm(AT[as_atom(arg)][2])
            d = sub(add(sub(arg, pos), idx), atom(at))
            if is_const(d): return 'enclosing' if cval(d) == 1 else 'bin %+g next to the enclosing' % (cval(d) - 1)
    d = sub(idx, n)
    if is_const(idx): return 'bin number %g' % cval(idx)
    if is_const(d): return 'bin %g after the last' % (cval(d) + 1)
    return None
