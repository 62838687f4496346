"""D04: every ageing rate reaches its own quantity, scaled by the elapsed time."""
TECH = 'abstract interpretation with symbolic state effects of the time step, per-model contribution analysis of every degradation loop and identity testing of the assembled rates'
NOTE = ('The time step, the assembly of the rates and every degradation model are analysed from the IR: in the time step each state must change by its own rate times the elapsed time, once; the assembled rates are compared with the documented sums; '
        'each model identifier must add its own contribution to its own accumulators with coefficient one. The closed forms of individual ageing laws (constants, exponents) are not compared with the literature.')
from vf.core import *
from vf.interp import Hooks
from vf.loops import Loops, method, subst_atoms
from vf import term as T, pit
from vf.ageing import Mech, MECH, CLS
from checks_util import other
C08 = other('C08')

def run(ctx):
    ctx.rule = ('unblocked step: state_i(after) = state_i(before) + rate_i dt n for every index the degradation writes, concentrations + dt times their own diffusion rate in every sub-step, all other states unchanged; '
                'assembled rate_i = documented sum of mechanism outputs; each selected model adds its own term once to its own accumulators')
    ctx.assume = ['real arithmetic', 'the number of sub-steps is not negative']
    ix = index(ctx)
    if ix is None: ctx.undecided('State_SPM', 'index enumeration not found'); return
    deg = assembly(ctx, ix); dif = diffusion(ctx, ix)
    if deg is not None and dif is not None: step(ctx, ix, deg, dif)
    for m in MECH: mechanism(ctx, m)
    tables(ctx)

def tables(ctx):
    for f in ctx.find(r'^(?:double )?slide::XYdata[A-Za-z_]*(<.*>)?::interp\('):
        P = ctx.load([dict(name='interp', cls='', fn=f['name'])]); F = P.fn('interp'); b = A(('arg', F.pargs[0]['id']))
        a = ctx.ai(F, P, Hooks())
        for e in a.exits:
            w = a.changed(e['st'], b)
            if not w: ctx.ok('a table lookup changes nothing')
            else: ctx.undecided('a table lookup changes nothing', f['dem'] + ' writes ' + str(w)[:80])

def index(ctx):
    """names of the state entries by index"""
    P = ctx.load(ctx.roots('Cell_SPM', ['getOCV']))
    try: en = P.enum('slide::State_SPM::Index')
    except Exception: return None
    r = {}; st = P.field(CLS, 'st')
    nch = en.get('i_zn', 0) - en.get('i_zp', 0)
    for k, v in en.items():
        if k.startswith('i_z'):
            for j in range(nch): r[v + j] = '%s(%d)' % (k[2:], j)
        elif k.startswith('i_'): r[v] = k[2:]
    r['st'] = st[0]; r['n'] = st[1] // 8; r['nch'] = nch; r['by'] = {b: a for a, b in r.items() if isinstance(a, int)}
    return r

# ---- assembly of the rates ---------------------------------------------------
class HA(Hooks):
    K = 24
    def call(self, ai, st, I, callee, args):
        m = method(callee)
        if m == 'interp':      # a table lookup: shown by tables() to change nothing
            r = [(st, atom(('call', I['id'], callee)), 'ret')]
            if I['op'] == 'invoke': r.append((st.clone(), None, 'unw'))
            return r
        if m in MECH and args and args[0] == ('ptr', ai.this, ZERO) and '::' + m + '(' in callee:
            outs = MECH[m]['outs']; r = st.clone()
            r.ps = tuple(sorted(set(st.ps) | {m})) if m not in st.ps else tuple(list(st.ps) + [m])
            if m == 'LiPlating': res = [(r, atom(('out', 'ipl')), 'ret')]
            else:
                pa = [a for a in args[1:] if a[0] == 'ptr']
                for n, p in zip(outs, pa): ai.store(r, p, atom(("out", n)), 8, I)
                res = [(r, None, 'ret')]
            if I['op'] == 'invoke': res.append((st.clone(), None, 'unw'))
            return res
        return None

def out(n): return atom(('out', n))

def assembly(ctx, ix):
    n = 'Cell_SPM::dState_degradation'
    P = ctx.load(ctx.roots('Cell_SPM', ['dState_degradation']), unroll=True, never=[r'slide::Cell_SPM::(SEI|CS|LAM|LiPlating)\(', r'slide::XYdata[A-Za-z_]*(<.*>)?::interp\('])
    F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return None
    h = HA(); a = ctx.ai(F, P, h, CLS); th = a.this
    d = A(('arg', next(x['id'] for x in F.pargs[1:] if x['ty'] == 'ptr')))
    E = lambda k: atom(('E', th, ix['st'] + 8 * ix['by'][k]))
    f = lambda nm: atom(('E', th, P.field(CLS, nm)[0]))
    M = P.field('slide::Model_SPM', 'Bn'); Mp = P.field(CLS, 'M')[0]
    Fc = const(96487.0)
    nF = mul(f('nsei'), Fc); pF = mul(f('npl'), Fc)
    isei, mult, ipl = out('isei'), out('isei_multiplyer'), out('ipl')
    tot = add(add(isei, mul(isei, mult)), ipl)
    ep = out('dep'); en = add(out('den'), out('den_sei'))
    want = {'delta': mul(isei, T.inv(mul(nF, f('rhosei')))), 'LLI': mul(mul(mul(tot, f('geo.elec_surf')), E('thickn')), E('an')),
            'thickp': out('dthickp'), 'thickn': out('dthickn'), 'ep': ep, 'en': en,
            'ap': add(out('dap'), scale(mul(ep, T.inv(f('geo.Rp'))), 3)), 'an': add(out('dan'), scale(mul(en, T.inv(f('geo.Rn'))), 3)),
            'CS': out('dCS'), 'Dn': out('dDn'), 'delta_pl': mul(ipl, T.inv(mul(pF, f('rhopl'))))}
    mem = Mp  # pointer to the matrices
    for j in range(ix['nch']):
        b = atom(('E', A(('E', th, mem)), M[0] + 8 * j))
        want['zn(%d)' % j] = mul(b, add(mul(add(isei, mul(isei, mult)), T.inv(nF)), mul(ipl, T.inv(pF))))
    res = {}
    dom = lambda t: (0.5, 2) if t[0] == 'E' else None
    for e in a.exits:
        if e['kind'] != 'ret': continue
        for m in MECH:
            c = e['st'].ps.count(m)
            if c == 1: ctx.ok('%s uses %s' % (n, m))
            else: ctx.violation('%s uses %s' % (n, m), '%s returns without the contribution of %s' % (n, m) if c == 0 else '%s evaluates %s %d times' % (n, m, c), F.loc(e['I']))
        for i in range(ix['n']):
            v = a.read(e['st'], d, 8 * i); old = atom(('E', d, 8 * i)); nm = ix.get(i, 'counter %d' % i); key = '%s %s' % (n, nm)
            if topoly(v) == old: kind = None; rate = ZERO
            else:
                x = sub(v, old); kind = 'add' if as_atom(old) not in T.atoms(x) else 'set'
                rate = x if kind == 'add' else topoly(v)
            res[i] = kind
            w = want.get(nm, ZERO)
            if C08.foreign(rate, th): ctx.undecided(key, 'rate %s' % show(rate)[:200]); continue
            q = pit.equal(rate, w, None, dom)
            if q is None: ctx.undecided(key, 'rate %s' % show(rate)[:200])
            elif q: ctx.ok(key)
            else: ctx.violation(key, 'the rate of %s is %s instead of %s' % (nm, show(rate)[:200], show(w)[:200]), F.loc(e['I']))
    return res

# ---- diffusion ------------------------------------------------------------------
def diffusion(ctx, ix):
    n = 'Cell_SPM::dState_diffusion'
    P = ctx.load(ctx.roots('Cell_SPM', ['dState_diffusion', 'Cap']), unroll=True)
    F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return None
    a = ctx.ai(F, P, Hooks(), CLS); th = a.this
    d = A(('arg', next(x['id'] for x in F.pargs[1:] if x['ty'] == 'ptr')))
    E = lambda k: atom(('E', th, ix['st'] + 8 * ix['by'][k])); f = lambda nm: atom(('E', th, P.field(CLS, nm)[0]))
    mat = lambda nm, j: atom(('E', A(('E', th, P.field(CLS, 'M')[0])), P.field('slide::Model_SPM', nm)[0] + 8 * j))
    Fc = const(96487.0)
    arr = scale(sub(T.inv(f('T_ref')), T.inv(E('T'))), 1 / 8.314)
    iapp = mul(E('I'), T.inv(f('geo.elec_surf')))
    want = {}
    for el, sg in (('p', -1), ('n', 1)):
        D = mul(E('D' + el), atom(('fn', 'exp', mul(f('D%s_T' % el), arr)))); j = scale(mul(iapp, T.inv(mul(mul(mul(E('a' + el), f('n')), Fc), E('thick' + el)))), sg)
        for i in range(ix['nch']): want['z%s(%d)' % (el, i)] = add(mul(mul(D, mat('A' + el, i)), E('z%s(%d)' % (el, i))), mul(mat('B' + el, i), j))
    cap = ctx.ai(P.fn('Cell_SPM::Cap'), P, Hooks(), CLS).exits[0]['val']
    want['SOC'] = scale(mul(E('I'), T.inv(cap)), -1 / 3600.0)
    dom = lambda t: (0.5, 2) if t[0] == 'E' else None
    res = {}
    for e in a.exits:
        if e['kind'] != 'ret': continue
        for i in range(ix['n']):
            v = a.read(e['st'], d, 8 * i); old = atom(('E', d, 8 * i)); nm = ix.get(i, 'counter %d' % i); key = '%s %s' % (n, nm)
            if topoly(v) == old: kind = None; rate = ZERO
            else:
                x = sub(v, old); kind = 'add' if as_atom(old) not in T.atoms(x) else 'set'
                rate = x if kind == 'add' else topoly(v)
            res[i] = kind
            if C08.foreign(rate, th): ctx.undecided(key, 'rate %s' % show(rate)[:200]); continue
            w = want.get(nm, ZERO); q = pit.equal(rate, w, None, dom)
            if q is None: ctx.undecided(key, 'rate %s' % show(rate)[:200])
            elif q: ctx.ok(key)
            else: ctx.violation(key, 'the diffusion rate of %s is %s instead of %s' % (nm, show(rate)[:200], show(w)[:200]), F.loc(e['I']))
    return res

# ---- the time step ---------------------------------------------------------------
class HS(Hooks):
    K = 32
    def __init__(self, ix, deg, dif): self.eff = {'dState_degradation': ('deg', deg), 'dState_diffusion': ('dif', dif)}; self.calls = {}
    def call(self, ai, st, I, callee, args):
        m = method(callee)
        if m in self.eff and args and args[0] == ('ptr', ai.this, ZERO):
            tag, eff = self.eff[m]; r = st.clone(); p = [a for a in args[1:] if a[0] == 'ptr'][0]
            self.calls.setdefault(m, set()).add(I['id'])
            if tag == 'deg': r.ps = tuple(st.ps) + ('deg',)
            if p[0] == 'ptr' and is_const(p[2]):
                b, o = p[1], int(cval(p[2]))
                for i, k in eff.items():
                    if k is None: continue
                    x = atom((tag, i))
                    if k == 'add': x = add(ai.read(st, b, o + 8 * i), x)
                    ai.store(r, ("ptr", b, const(o + 8 * i)), x, 8, I)
            else: return None
            res = [(r, None, 'ret')]
            if I['op'] == 'invoke': res.append((st.clone(), None, 'unw'))
            return res
        if m in ('V', 'dState_thermal', 'thermalModel', 'updateDaiStress', 'updateLaresgoitiStress', 'setT', 'getThermalSurface') and args and args[0] == ('ptr', ai.this, ZERO):
            r = st.clone()
            if m == 'dState_thermal':
                p = [a for a in args[1:] if a[0] == 'ptr'][0]; ai.store(r, p, atom(("out", "dQgen")), 8, I)
            res = [(r, atom(('call', I['id'], callee)), 'ret')]
            if I['op'] == 'invoke': res.append((st.clone(), None, 'unw'))
            return res
        return None

def step(ctx, ix, deg, dif):
    n = 'Cell_SPM::timeStep_CC'
    P = ctx.load(ctx.roots('Cell_SPM', ['timeStep_CC']), never=[r'slide::Cell_SPM::(V|dState_[a-z]+|thermalModel[A-Za-z_]*|update[A-Za-z]+Stress|setT)\('], unroll=True)
    F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    h = HS(ix, deg, dif)
    a = ctx.ai(F, P, h, CLS, loops=True); L = Loops(a); th = a.this
    dt = atom(('arg', next(x['id'] for x in F.pargs[1:] if x['ty'] == 'double'))); ns = atom(('arg', next(x['id'] for x in F.pargs[1:] if x['ty'].startswith('i'))))
    el = mul(dt, ns); dom = C08.DOM(a, ns)
    for cid in h.calls.get('dState_diffusion', ()):
        hh = F.loopof.get(F.blk[cid])
        if hh is None: ctx.violation(n + ' diffusion', 'the diffusion rates are not computed in every sub-step', F.loc(F.ins[cid])); continue
        q = L.every_iteration(hh['header'], F.blk[cid])
        if q is True: ctx.ok(n + ' diffusion in every sub-step')
        else: ctx.undecided(n + ' diffusion in every sub-step', 'not shown')
    skip = {ix['by'].get('I')} if False else set()
    for e in a.exits:
        if e['kind'] != 'ret': continue
        c = e['st'].ps.count('deg')
        if c > 1: ctx.violation(n + ' once', 'the ageing rates are computed %d times in one step' % c, F.loc(e['I']))
        b = a.query(e['st'], rel(atom(('E', th, P.field('slide::Cell_SPM', 'blockDegAndTherm')[0])), ZERO, EQ, 7))
        if c == 0 and b is True: ctx.violation(n + ' ages', 'an unblocked step ends without applying the ageing rates', F.loc(e['I'])); continue
        for i in range(ix['n']):
            if i not in ix: continue          # counters: C08
            nm = ix[i]; key = '%s %s%s' % (n, nm, ' unblocked' if c else '')
            if nm == 'SOC' and not c: continue
            if nm == 'SOC': w = None
            off = ix['st'] + 8 * i; v = a.read(e['st'], th, off); old = atom(('E', th, off))
            want = old
            if dif.get(i): want = add(want, mul(el, atom(('dif', i))))
            if c and deg.get(i): want = add(want, mul(el, atom(('deg', i))))
            r = C08.steps(L, v)
            if r is None: ctx.undecided(key, 'value %s not resolved' % show(v)[:150]); continue
            d = sub(r[0], want)
            if C08.close(d) or pit.equal(r[0], want, None, dom): ctx.ok(key); continue
            if nm == 'T' and any(AT[x][0] == 'call' for x in T.atoms(topoly(v))): ctx.ok(key); continue
            if C08.foreign(d, th): ctx.undecided(key, 'value differs by %s' % show(d)[:150]); continue
            nam = lambda t: re.sub(r'<(deg|dif) (\d+)>', lambda m: 'rate[%s]' % ix.get(int(m.group(2)), m.group(2)), show(t))[:200]
            ctx.violation(key, 'a step changes %s by %s instead of %s' % (nm, nam(sub(r[0], old)), nam(sub(want, old))), F.loc(e['I']))

# ---- the models ------------------------------------------------------------------
# per mechanism and identifier: accumulator -> names its contribution has to depend on
OWN = {
    'SEI': {1: {'isei': ('sei1k', 'sei1k_T')}, 2: {'isei': ('sei2k', 'sei2k_T', 'sei2D', 'sei2D_T')}, 3: {'isei': ('sei3k', 'sei3k_T', 'sei3D', 'sei3D_T')}, 4: {'isei': ('sei4k', 'sei4k_T', 'sei4D', 'sei4D_T')}},
    'CS': {1: {'dCS': ('CS1alpha', 's_lares_n', 's_lares_n_prev'), 'isei_multiplyer': ('CS',)}, 2: {'dCS': ('CS2alpha', 's_dai_n', 's_dai_n_prev'), 'isei_multiplyer': ('CS',)},
           3: {'dCS': ('CS3alpha',), 'isei_multiplyer': ('CS',)}, 4: {'dCS': ('CS4alpha', 'CS4Amax', 'CS', 'I'), 'isei_multiplyer': ('CS',)}, 5: {'dCS': ('CS5k', 'CS5k_T'), 'isei_multiplyer': ('CS',)}},
    'LAM': {1: {'dthickp': ('lam1p', 's_dai_p', 's_dai_p_prev'), 'dthickn': ('lam1n', 's_dai_n', 's_dai_n_prev')},
            2: {'dep': ('lam2ap', 'lam2bp', 'lam2t', 'thickp', 'ap'), 'den': ('lam2an', 'lam2bn', 'lam2t', 'thickn', 'an')}, 3: {'dep': ('lam3k', 'lam3k_T')},
            4: {'dap': ('lam4p', 'ap'), 'dan': ('lam4n', 'an')}},
    'LiPlating': {1: {'ipl': ('pl1k', 'pl1k_T')}},
}
# names only the given contribution may depend on
PRIVATE = re.compile(r'^(sei\dk(_T)?|sei\dD(_T)?|CS\dalpha|CS\dk(_T)?|CS4Amax|lam\d\w+|pl1k(_T)?|s_(dai|lares)_\w+|thick[pn]|a[pn])$')
OTHER = {'CS': {'isei_multiplyer': ('thickn', 'an')}, 'SEI': {}, 'LAM': {}, 'LiPlating': {}}

def names(ctx, P, ix, th, t):
    r = set()
    for x in T.atoms(topoly(t)):
        a = AT[x]
        if a[0] == 'E' and a[1] == th:
            o = a[2]
            i = (o - ix['st']) // 8
            if 0 <= i < ix['n'] and (o - ix['st']) % 8 == 0: r.add(ix.get(i, '?'))
            else:
                fn = P.fname(CLS, o)
                r.add(fn.split('.')[-1] if fn else '?')
    return r

def mechanism(ctx, name):
    n = 'Cell_SPM::' + name; ix = index(ctx)
    m = Mech(ctx, name)
    if not m.ok: ctx.undecided(n, m.why); return
    a, F, P, L = m.a, m.F, m.P, m.L
    own = OWN[name]
    contrib = {}      # id -> {output: [(delta, where)]}
    if m.h is None:
        for e in m.rets:
            ids = m.ids(e['st'])
            for k in ids:
                if k in m.m['ids']: contrib.setdefault(k, {}).setdefault('ipl', []).append((topoly(e['val']), F.loc(e['I'])))
    else:
        q, why = m.each_model_once()
        if q is True: ctx.ok(n + ' every selected model')
        elif q is False: ctx.violation(n + ' every selected model', '%s: %s' % (n, why), F.loc(F.blocks[m.h][0]))
        else: ctx.undecided(n + ' every selected model', why)
        accs = {}
        for e in m.rets:
            for o, v in m.outs(e).items():
                if m.m['opt'] and o == m.m['opt'][1]: continue
                xs = m.acc(v)
                if len(xs) == 1 and topoly(v) == atom(xs[0]): accs.setdefault(o, set()).add(xs[0]); ctx.ok('%s returns %s' % (n, o)); continue
                if len(xs) == 1 and not C08.foreign(sub(v, atom(xs[0])), m.th, (xs[0],)): ctx.violation('%s returns %s' % (n, o), '%s returns %s as %s instead of the sum over the selected models' % (n, show(v)[:150], o), F.loc(e['I'])); continue
                if not xs and not C08.foreign(v, m.th): ctx.violation('%s returns %s' % (n, o), '%s returns %s as %s, whatever the selected models contribute' % (n, show(v)[:150], o), F.loc(e['I'])); continue
                ctx.undecided('%s returns %s' % (n, o), 'value %s' % show(v)[:150])
        # starts from zero
        for o, xs in accs.items():
            for x in xs:
                c = L.carried(x)
                if c and c[1] and all(topoly(i) == ZERO for i in c[1]['init']): ctx.ok('%s %s starts at zero' % (n, o))
                elif c and c[1] and all(not C08.foreign(i, m.th) for i in c[1]['init']): ctx.violation('%s %s starts at zero' % (n, o), '%s: the sum of %s starts from %s' % (n, o, [show(i) for i in c[1]['init']]), F.loc(F.blocks[m.h][0]))
                else: ctx.undecided('%s %s starts at zero' % (n, o), 'initial value unknown')
        for l in F.loops[m.h]['latches']:
            for st in a.edges.get((l, m.h), []):
                for k in m.ids(st):
                    if k not in m.m['ids']: continue
                    for o, xs in accs.items():
                        for x in xs:
                            u = m.upd(st, l, x)
                            contrib.setdefault(k, {}).setdefault(o, []).append((sub(u, atom(x)), F.loc(F.blocks[l][-1]), x))
    for k in m.m['ids']:
        key = '%s model %d' % (n, k)
        if k not in contrib: ctx.undecided(key, 'no path for this identifier completes an iteration'); continue
        for o, ds in contrib[k].items():
            ko = key + ' ' + o
            req = own.get(k, {}).get(o)
            some = False; und = False
            for d in ds:
                t, where = d[0], d[1]
                if len(d) > 2 and d[2] in T.atoms(t):
                    ctx.violation(ko, '%s: model %d does not add to %s but replaces or scales what other models contributed (%s)' % (n, k, o, show(t)[:150]), where); some = None; break
                if t == ZERO: continue
                if req is None:
                    ctx.violation(ko, '%s: model %d contributes %s to %s, which it does not affect' % (n, k, show(t)[:120], o), where); some = None; break
                have = names(ctx, P, ix, m.th, t)
                foreignp = [x for x in have if PRIVATE.match(x) and not any(x in v for v in [req]) and not x.startswith('s_') and x not in OTHER[name].get(o, ())]
                al = {'ap', 'an', 'thickp', 'thickn'}
                if name != 'LAM': foreignp = [x for x in foreignp if x not in al]
                if foreignp: ctx.violation(ko + ' parameters', '%s: the contribution of model %d to %s uses %s, a parameter of another contribution' % (n, k, o, ', '.join(foreignp)), where); some = None; break
                miss = [x for x in req if x not in have]
                if miss and not C08.foreign(t, m.th): ctx.violation(ko + ' parameters', '%s: the contribution of model %d to %s does not depend on %s' % (n, k, o, ', '.join(miss)), where); some = None; break
                some = True
            if some is None: continue
            if req and not some: ctx.violation(ko, '%s: model %d contributes nothing to %s' % (n, k, o), ds[0][1]); continue
            ctx.ok(ko)
    if m.m['opt']: option(ctx, m, n, ix)

def option(ctx, m, n, ix):
    """the effect on porosity / diffusion constant is part of the output exactly when it is selected"""
    fl, o = m.m['opt']; x = atom(('E', m.th, m.off(fl)))
    for e in m.rets:
        v = m.outs(e)[o]; key = '%s %s' % (n, fl)
        z = m.a.query(e['st'], rel(x, ZERO, EQ, 7)); one = m.a.query(e['st'], rel(x, ONE, EQ, 7))
        if z is True:
            if topoly(v) == ZERO: ctx.ok(key + ' 0')
            elif C08.foreign(v, m.th, m.acc(v)): ctx.undecided(key + ' 0', 'value %s' % show(v)[:100])
            else: ctx.violation(key + ' 0', '%s: %s is %s although %s is 0' % (n, o, show(v)[:120], fl), m.F.loc(e['I']))
        elif one is True:
            have = names(ctx, m.P, ix, m.th, v); need = ('sei_porosity',) if fl == 'SEI_porosity' else ('CS_diffusion', 'Dn')
            dep = m.acc(v)
            if topoly(v) == ZERO or not all(q in have for q in need) or not dep: 
                if topoly(v) != ZERO and any(AT[q][0] in ('call', 'hv') for q in T.atoms(topoly(v))): ctx.undecided(key + ' 1', show(v)[:100]); continue
                ctx.violation(key + ' 1', '%s: %s is %s although %s is 1' % (n, o, show(v)[:120], fl), m.F.loc(e['I']))
            else: ctx.ok(key + ' 1')
        else: ctx.undecided(key, 'option not determined on an exit')
