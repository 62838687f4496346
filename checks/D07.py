"""D07: cooling control follows the selected strategy."""
TECH = 'decision tables: every path of the control functions against the table of the strategies, with the path facts split on the atomic conditions of the table; closed forms of the temperatures handed to the control'
NOTE = ('Every combination of strategy and order of the temperatures and thresholds (equality included) is compared with the flow and air-conditioning power each path leaves; proportional values are compared as closed forms. '
        'The temperatures given to the control by the packs are shown to be the maximum over the direct children and the hot spot of the pack.')
from vf.core import *
from vf.interp import Hooks
from vf.dtab import Paths, cases
from vf.loops import Loops, method
from vf.agg import Agg, SplitPhi, GEN
from vf import term as T, pit

def run(ctx):
    ctx.rule = ('control of each cooling system, strategies 1..5: flow and AC power after every path = those of the table; on/off: on at or above the upper, off at or below the lower, unchanged between; proportional: own gain x excess (never negative), off below 20%; '
                'control(local, global) is called with the maximum of T over the children and with the hot spot')
    ctx.assume = ['real arithmetic', 'temperatures and thresholds are numbers', 'the lower threshold is below the upper one']
    for k in COOLS: system(ctx, k)
    for k in ('Module_s', 'Module_p', 'Battery'): caller(ctx, k)

class H(Paths): K = 2048

def system(ctx, k):
    n = k + '::control'; CLS = 'slide::' + k
    P = ctx.load(ctx.roots(k, ['control'])); F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    a = ctx.ai(F, P, H(), CLS); th = a.this
    def E(x):
        f = P.field(CLS, x)
        return atom(('E', th, f[0])) if f else None
    args = [x for x in F.pargs if x['ty'] == 'double']
    if len(args) != 2: ctx.undecided(n, 'arguments not recognised'); return
    loc, glo = [atom(('arg', x['id'])) for x in args]
    if k == 'CoolSystem_open':
        f = P.field(CLS, 'flowrate')[0]
        for e in a.exits:
            v = topoly(a.read(e['st'], th, f))
            if v == ZERO: ctx.ok(n + ' flow')
            else: ctx.violation(n + ' flow', '%s leaves the flow at %s, an open system has none' % (n, show(v)[:80]), F.loc(e['I']))
        return
    cs = E('control_strategy'); Tc = E('Tcoolant')
    temps = {x for x in (loc, glo, Tc, E('control_onoff_Ton'), E('control_onoff_Toff'), E('control_prop_T'), E('controlAC_onoff_Ton'), E('controlAC_onoff_Toff'), E('controlAC_prop_T')) if x}
    gains = {x for x in (E('control_prop_gain'), E('controlAC_prop_gain')) if x}
    ids = lambda s: {as_atom(x) for x in s}
    ti, gi = ids(temps), ids(gains)
    def dom(x):
        i = T.A(x)
        if i in ti: return (292, 296, 'int')
        if i in gi: return (1, 12, 'int')
        return None
    G = gains
    class Env(pit.Env):
        def val(self, i):
            v = pit.Env.val(self, i)
            if i in gi and v >= 1: v = v / 10.0; self.v[i] = v
            return v
    def plan(out, on, Ton, Toff, prop, gain, ac):
        """strategy -> (conditions, oracle)"""
        R = {}
        cond = lambda t: {'on': rel(t, Ton, GT | EQ, 15)}
        off = lambda t: {'off': rel(t, Toff, LT | EQ, 15)}
        sw = lambda d: {'off'} if d['off'] and not d['on'] else {'on'} if d['on'] and not d['off'] else {'keep'} if not d['on'] else {'on', 'off'}
        if not ac:
            R[1] = ({}, lambda d: {'keep'}, None)
            for i, t in ((2, loc), (3, glo)): R[i] = ({**cond(t), **off(t)}, sw, None)
            for i, t in ((4, loc), (5, glo)):
                x = fn('max', sub(t, prop), ZERO) ; g = mul(gain, x)
                R[i] = ({'more than 20%': rel(g, const(0.2), GT, 15), 'above the reference': rel(t, prop, GT, 15)}, lambda d: {'prop'} if d['more than 20%'] and d['above the reference'] else {'off'}, mul(on, g))
        else:
            R[1] = ({'below': rel(Tc, Toff, LT, 15), 'above': rel(Tc, Toff, GT, 15)}, lambda d: {'off'} if d['below'] else {'on'} if d['above'] else {'on', 'off'}, None)
            for i, t in ((2, Tc), (3, glo)): R[i] = ({**cond(t), **off(Tc)}, lambda d: {'off'} if d['off'] else {'on'} if d['on'] else {'keep'}, None)
            for i, t in ((4, Tc), (5, glo)):
                x = fn('max', sub(t, prop), ZERO); g = mul(gain, x)
                R[i] = ({**off(Tc), 'more than 20%': rel(g, const(0.2), GT, 15), 'above the reference': rel(t, prop, GT, 15)},
                        lambda d: {'off'} if d['off'] or not (d['more than 20%'] and d['above the reference']) else {'prop'}, mul(on, fn('min', g, const(1))))
        return R
    def points(st, i):
        """points that satisfy the facts, temperatures on a grid"""
        r = []
        for s in range(700):
            e = Env((i, s), dom, {as_atom(cs): float(i)})
            try:
                if pit.holds(st, e): r.append(e)
            except (pit.Undef, OverflowError): pass
            if len(r) >= 8: break
        return r
    def judge(out, R, what, on):
        f = P.field(CLS, out)[0]; old = atom(('E', th, f))
        for i in range(1, 6):
            preds, oracle, pv = R[i]; cover = set()
            for e in a.exits:
                if e['kind'] != 'ret': ctx.violation('%s throws' % n, '%s raises an error' % n, F.loc(e['I'])); continue
                if a.query(e['st'], rel(cs, const(i), EQ, 7)) is False: continue
                sts = a.assume(e['st'].clone(), rel(cs, const(i), EQ, 7), True)
                for st0 in sts:
                    S = cases(a, st0, preds)
                    if S is None: ctx.undecided('%s strategy %d' % (n, i), 'too many cases'); continue
                    for d, s in S:
                        want = oracle(d); key = '%s strategy %d %s' % (n, i, what)
                        if out != 'Q_ac' and {'on', 'off'} <= want and 'on' in preds: continue      # thresholds the wrong way round
                        v = topoly(a.read(s, th, f))
                        val = {'keep': old, 'off': ZERO, 'on': on, 'prop': pv}
                        if any(v == val[w] for w in want): ctx.ok(key); cover |= want; continue
                        pts = points(s, i); bad = 0; good = 0
                        for q in pts:
                            try:
                                x = pit.ev(v, q); good += 1
                                if not any(abs(x - pit.ev(val[w], q)) <= 1e-9 * max(1, abs(x)) for w in want): bad += 1
                            except (pit.Undef, OverflowError): pass
                        if bad:
                            if any(AT[y][0] in ('hv', 'undef') for y in T.atoms(v)): ctx.undecided(key, show(v)[:80]); continue
                            ctx.violation('%s (%s)' % (key, ', '.join(('' if q else 'not ') + w for w, q in d.items())), '%s with strategy %d leaves the %s at %s when %s; it should be %s' % (n, i, what, show(v)[:90], ', '.join(('' if q else 'not ') + w for w, q in d.items()) or 'called', ' or '.join(sorted(want))), F.loc(e['I']))
                        elif good: ctx.ok(key); cover |= want
            if not cover: ctx.undecided('%s strategy %d %s' % (n, i, what), 'no path for this strategy')
    on = E('control_onoff_flr')
    judge('flowrate', plan('flowrate', on, E('control_onoff_Ton'), E('control_onoff_Toff'), E('control_prop_T'), E('control_prop_gain'), False), 'flow', on)
    if k == 'CoolSystem_HVAC':
        on = E('controlAC_onoff_Q')
        judge('Q_ac', plan('Q_ac', on, E('controlAC_onoff_Ton'), E('controlAC_onoff_Toff'), E('controlAC_prop_T'), E('controlAC_prop_gain'), True), 'AC power', on)

class HC(SplitPhi):
    """what the pack calls does not change the list of its members"""
    def call(self, ai, st, I, callee, args):
        if 'slide::' in callee and method(callee) not in ('T',):
            r = [(st.clone(), atom(('call', I['id'], callee)), 'ret')]
            if I['op'] == 'invoke': r.append((st.clone(), None, 'unw'))
            return r
        return None

def caller(ctx, k):
    """what the packs hand to the control"""
    n = k + '::timeStep_CC'; cls = 'slide::' + k
    kw = dict(opaque=[r'slide::linInt', r'slide::Module::', r'slide::StorageUnit::', r'::(thermalModel|redistributeCurrent)\('], force=[r'^slide::Battery::timeStep_CC', r'slide::transform_max', r'slide::free::', r' slide::', r'slide::Module::getSUs']) if k == 'Battery' else \
        dict(never=[r'slide::run<', r'::(thermalModel|redistributeCurrent|getThotSpot|getCoolSystem)\('])
    if k == 'Battery': kw['never'] = [r'::(thermalModel|redistributeCurrent|getThotSpot)\(', r'slide::Module::timeStep_CC']
    P = ctx.load(ctx.roots(k, ['timeStep_CC']), **kw); F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    g = Agg(ctx, F, P, cls, HC()); ns = 0
    for I, st, args in g.ai.sites:
        if I['op'] not in ('call', 'invoke') or method(I.get('dem') or '') != 'control': continue
        ns += 1
        v = topoly(args[2]); x = AT[as_atom(v)] if as_atom(v) is not None else ()
        key = n + ' global hot spot'
        if x and x[0] in ('call', 'm') and method(x[2] if x[0] == 'call' else x[1]) == 'getThotSpot': ctx.ok(key)
        elif any(AT[y][0] in ('hv', 'undef') for y in T.atoms(v)): ctx.undecided(key, show(v)[:100])
        else: ctx.violation(key, '%s gives %s as the temperature of the global hot spot' % (n, show(v)[:100]), F.loc(I))
        key = n + ' local hot spot'
        w = g.expand(topoly(args[1]), st); y = as_atom(w); x = AT[y] if y is not None else ()
        if is_const(w) and cval(w) == 0 and (k == 'Battery' or g.empty(st)): ctx.ok(key + ' of an empty pack'); continue
        good = None
        if x and x[0] in ('MAX', 'MIN'):
            e, N = x[1], x[2]; m = AT[as_atom(e)] if as_atom(e) is not None else ()
            b = sub(m[2], scale(atom(GEN), 8)) if m and m[0] == 'm' and m[1] == 'T' else None
            if x[0] == 'MIN' or b is None: good = False
            elif k == 'Battery': good = as_atom(b) is not None and len(N[1]) == 2 and rngok(N, b)
            else: good = b == g.seq('SUs')[0] and N == g.n()
            if good and len(x) > 3 and not (is_const(x[3]) and cval(x[3]) <= 0): good = False
        elif is_const(w) or not any(AT[q][0] in ('j', 'jm', 'hv', 'undef') for q in T.atoms(w)): good = False
        if good: ctx.ok(key)
        elif good is None: ctx.undecided(key, show(w)[:120])
        else: ctx.violation(key, '%s gives %s as the temperature of the local hot spot, not the largest temperature of its children' % (n, show(w)[:120]), F.loc(I))
    if not ns: ctx.undecided(n, 'call of the control not found')

def rngok(N, b):
    """N = (end - b) / 8 with b and end two members of the same list"""
    r = add(scale(N, 8), b)
    return as_atom(r) is not None
