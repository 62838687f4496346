"""C11: the voltage check classifies every voltage."""
TECH = 'decision table extracted by path-sensitive abstract interpretation, compared with the documented table'
NOTE = 'All exits of checkVoltage of the four cell classes are enumerated; each consistent combination of the comparisons on the path is compared with the documented class.'
from vf.core import *
from vf.loops import method
from vf.dtab import table, Paths
from vf import term as T

Q = {'V', 'Vmin', 'Vmax', 'VMIN', 'VMAX', 'I'}
class H(Paths):
    def call(self, ai, st, I, callee, args):
        m = method(callee)
        if m in Q and I['ty'] == 'double':
            r = [(st, atom(('q', m)), 'ret')]
            if m == 'V': 
                s2 = st.clone(); s2.ps = ('Vthrows',); r.append((s2, None, 'unw'))
            return r
        return None
    def may_throw(self, ai, st, I, callee): return False

def run(ctx):
    ctx.rule = ('for every cell class the decision table of checkVoltage is extracted from the facts on each path (voltage, four limits and the current are free symbols, the tolerance is the constant in the code) and '
                'compared, for every consistent combination of its atomic conditions, with the documented classification; the voltage handed back must be the one that was classified')
    ctx.assume = ['the limits and the current do not change during one check', 'a voltage exactly on a widened limit may be classified either way']
    roots = []
    for c, m in CELLS.items(): roots += ctx.roots(c, ['checkVoltage'])
    P = ctx.load(roots, opaque=[r'::(V|Vmin|Vmax|VMIN|VMAX|I|T|getFullID)\('], force=[r'check_voltage', r'checkVoltage', r'is(C|Disc)harging'])
    E = P.enum('slide::Status'); inv = {}
    for k, v in E.items(): inv.setdefault(v, k)
    tol = None
    q = lambda n: atom(('q', n))
    for r in roots:
        F = P.fn(r['name'])
        if F is None: ctx.undecided(r['name'], 'not found'); continue
        a = ctx.ai(F, P, H(), 'slide::' + r['name'].split('::')[0])
        tols = set()
        for e in a.exits:
            for v in e['st'].facts: tols |= tolerances(v, e['st'].facts[v])
        tols = {t for t in tols if t}
        if len(tols) != 1: ctx.undecided(r['name'], 'tolerance of the window not recognised: %s' % sorted(tols)); continue
        t = const(next(iter(tols)))
        if not 0 < cval(t) <= 0.1: ctx.violation(r['name'] + ' tolerance', 'the operating window is widened by %g V' % cval(t), F.loc(None)); continue
        lo, hi = sub(q('Vmin'), t), add(q('Vmax'), t)
        P1 = {'the voltage is not positive': rel(q('V'), ZERO, LT | EQ | 8, 15), 'V above Vmin-tol': rel(q('V'), lo, GT, 15), 'V below Vmax+tol': rel(q('V'), hi, LT, 15),
              'V on a widened limit': bor(rel(q('V'), lo, EQ, 15), rel(q('V'), hi, EQ, 15)), 'V under Vmin-tol': rel(q('V'), lo, LT, 15), 'V over Vmax+tol': rel(q('V'), hi, GT, 15), 'V<VMIN': rel(q('V'), q('VMIN'), LT, 15), 'V>VMAX': rel(q('V'), q('VMAX'), GT, 15),
              'discharging': rel(q('I'), ZERO, GT, 15), 'charging': rel(q('I'), ZERO, LT, 15)}
        names = list(P1)
        def oracle(d):
            if d[names[3]]: return None
            if d[names[0]]: return {'V_not_calculated'}
            ina, inb = d[names[1]], d[names[2]]
            if ina and inb: return {'Success'}
            if ina == d['V under Vmin-tol'] or inb == d['V over Vmax+tol']: return None     # not comparable
            dis, ch = d['discharging'], d['charging']
            if dis and ch: return None
            if not ina and not inb: return None       # no window at all (limits not ordered)
            if d['V<VMIN'] and dis: return {'VMIN_violation'}
            if d['V>VMAX'] and ch: return {'VMAX_violation'}
            if not ina and dis: return {'Vmin_violation'}
            if not inb and ch: return {'Vmax_violation'}
            return {'Success'}
        def outcome(e, s):
            if e['kind'] != 'ret': return 'an exception'
            l, h = a.ival(s, e['val'])
            return inv.get(l, 'status %s' % l) if l == h else None
        thr = [e for e in a.exits if 'Vthrows' in e['st'].ps]; nor = [e for e in a.exits if 'Vthrows' not in e['st'].ps]
        for e in thr:
            o = outcome(e, e['st'])
            ctx.check(r['name'] + ' voltage not computable', o == 'V_not_calculated', '%s reports %s when the voltage cannot be computed' % (r['name'], o), F.loc(e['I']))
        if not thr: ctx.undecided(r['name'], 'no path on which the voltage cannot be computed')
        table(ctx, a, r['name'], P1, oracle, outcome, F, nor)
        # the voltage that is handed back
        va = next((x for x in F.pargs[1:] if x['ty'] == 'ptr'), None)
        if va:
            base = A(('arg', va['id']))
            for e in nor:
                v = a.read(e['st'], base, 0)
                ctx.check(r['name'] + ' voltage returned', v == q('V'), '%s hands back %s instead of the voltage it classified' % (r['name'], show(v)), F.loc(e['I']))

def tolerances(v, f):
    """constants added to the limits in comparisons of the voltage with Vmin / Vmax"""
    names = {AT[a][1] for a in T.atoms(v) if AT[a][0] == 'q'}
    if names not in ({'V', 'Vmin'}, {'V', 'Vmax'}): return set()
    return {abs(x) for x in (f[0], f[2]) if abs(x) != float('inf')}
