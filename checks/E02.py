"""E02: throughput reported by a cycle covers every step taken."""
TECH = 'abstract interpretation with ghost counters: a ghost counter accumulates dt x n at every return of timeStep_CC; loop-carried values whose increment per repetition is that of the ghost stand for it; every normal exit is compared with the ghost'
NOTE = ('Decides for every path and every number of repetitions that each counter of the caller grows by exactly what the steps taken moved, with current and voltage being readings of the unit (or the requested current). '
        'Accuracy of the charge as an integral over one step is not judged; the unit is represented by its virtual interface.')
from vf.cyc import *

def run(ctx):
    ctx.rule = ('every normal exit of rest, CC and CV: time counter = initial + sum over the steps taken of dt x n; charge = initial + sum of |I| dt n / 3600 with I the requested or read current; energy = the same x a voltage read after the step; rest: charge and energy unchanged; '
                'CCCV(_with_tlim): every counter = initial + the sum of what its CC and CV phases report')
    ctx.assume = ['real arithmetic', 'calls of the unit do not change the local variables or counters of the cycler']
    off = offsets(ctx)
    if off is None: ctx.undecided('ThroughputData', 'counters not found'); return
    P, ns = load(ctx, ['rest', 'CC', 'CV'])
    for n in ns: phase(ctx, P, n, off)
    P, ns = load(ctx, ['CCCV', 'CCCV_with_tlim'], never=[r'slide::Cycler::(CC|CV|rest)\('])
    for n in ns: phase(ctx, P, n, off)

def phase(ctx, P, n, off):
    F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    h = Unit(off); h.thb = A(('arg', [x for x in F.args if x['ty'] == 'ptr'][-1]['id']))
    a = ctx.ai(F, P, h, 'slide::Cycler', loops=True); m = n.split('::')[1]
    S = Steps(a, h, n)
    ctx.analysed['call_sites'] += len(h.steps)
    done = {}
    for e in a.exits:
        if e['kind'] != 'ret': continue
        st = e['st']; c = h.counters(a, st)
        k = (e['I']['id'], c, st.ps)
        if k in done: continue
        done[k] = 1
        for i, x in enumerate(NAMES):
            key = '%s counts the %s' % (n, {'time': 'time', 'Ah': 'charge', 'Wh': 'energy'}[x])
            init = atom(('E', h.thb, off[x])); v = sub(topoly(c[3 + i]), init)
            q = S.match(i, v, c, m == 'rest')
            if q is True: ctx.ok(key)
            elif any(AT[y][0] in ('hv', 'undef') or AT[y][0] in ('j', 'jm') and (y not in S.h or AT[y][0] == 'jm' and AT[y][3] != S.h[y]) for y in T.atoms(v)): ctx.undecided(key, show(v)[:120])
            elif q is None: ctx.undecided(key, show(v)[:120])
            else:
                w = S.why(v, i)
                ctx.violation(key, '%s returns with the %s counter changed by %s, the steps taken need %s%s' % (n, x, show(v)[:140], q[:140], w), F.loc(e['I']))

class Steps:
    """loop carried values that grow with the ghost"""
    def __init__(self, a, h, n):
        self.a = a; self.hk = h; self.L = Loops(a); self.like = {}; self.h = {}; self.inc = {}
        F = a.F
        for hd in F.loops:
            body = F.loops[hd]['body']
            gj = [A(('jm', A(GH), 8 * k, hd)) for k in range(3)]
            lat = [(fr, s) for (fr, to), sts in a.edges.items() if to == hd and fr in body for s in sts]
            ent = [(fr, s) for (fr, to), sts in a.edges.items() if to == hd and fr not in body for s in sts]
            cand = [A(('jm', h.thb, h.off[x], hd)) for x in NAMES] + [A(('j', hd, I['id'])) for I in F.blocks[hd] if I['op'] == 'phi' and I['ty'] == 'double']
            cand += [A(('jm', b, o, hd)) for (b, o) in (a.seeds[hd][1] if a.seeds and hd in a.seeds else {}) if AT[b][0] == 'alloca']
            for x in set(cand):
                self.h[x] = hd
                incs = []
                for fr, s in lat:
                    u = self.cur(x, fr, s)
                    g = sub(topoly(a.read(s, A(GH), 0)), atom(gj[0]))
                    incs.append((None if u is None else sub(u, atom(x)), g, s))
                if not incs or any(u is None for u, g, s in incs): continue
                for i in range(3):
                    if all(self.unit(i, u, g) for u, g, s in incs) and any(g != ZERO for u, g, s in incs): 
                        ini = {self.cur(x, fr, s) for fr, s in ent}
                        if len(ini) == 1: self.like[x] = (i, next(iter(ini)), hd)
                self.inc[x] = incs
    def cur(self, x, fr, s):
        t = AT[x]
        if t[0] == 'j':
            for o, b in self.a.F.ins[t[2]]['in']:
                if b == fr: return topoly(self.a.val(s, o))
            return None
        return topoly(self.a.read(s, t[1], t[2]))
    def reads(self, what):
        return [term(self.a, i) for i, w in self.hk.rd.items() if w == what]
    def currents(self):
        r = self.reads('I')
        F = self.a.F
        for I, st, args in self.a.sites:
            if method(I.get('dem') or '') == 'setCurrent' and len(args) > 2: r.append(topoly(args[1]))
        return r
    def unit(self, i, u, g):
        """is u what a step of length g adds to counter i?"""
        if g == ZERO: return u == ZERO
        if i == 0: return u == g or pit.equal(u, g) is True
        for c in self.currents():
            w = scale(mul(fabs(c), g), 1 / 3600.)
            w2 = scale(fabs(mul(c, g)), 1 / 3600.)
            for x in (w, w2):
                if i == 1:
                    if u == x or pit.equal(u, x, None, self.dom) is True: return True
                else:
                    for v in self.after():
                        y = mul(x, v)
                        if u == y or pit.equal(u, y, None, self.dom) is True: return True
        return False
    def dom(self, x):
        # lengths of steps are not negative
        if not hasattr(self, 'cur_'): self.cur_ = {y for c in self.currents() for y in T.atoms(c)}
        return (0.2, 3) if x[0] in ('j', 'arg', 'jm') and T.A(x) not in self.cur_ else None
    def after(self):
        """voltages read after the step"""
        F = self.a.F; r = []
        pos = {I['id']: (b, k) for b in F.rpo for k, I in enumerate(F.blocks[b])}
        for i, w in self.hk.rd.items():
            if w != 'V': continue
            b, k = pos[abs(i)]
            for s in self.hk.steps:
                sb, sk = pos[s]
                if F.dominates(sb, b) and (sb != b or sk < k): r.append(term(self.a, i)); break
        return r
    def match(self, i, v, c, rest):
        G = topoly(c[0]); g = G; base = {}
        if rest and i: return True if v == ZERO else '0'
        # the ghost: carried part and present step
        carried = [x for x in {y for m, _ in G[1] for y, _e in m} if AT[x][0] == 'jm' and AT[x][1] == A(GH)]
        for x in carried: g = sub(g, atom(x))
        hs = {AT[x][3] for x in carried}
        did = topoly(c[i]) if i else ZERO      # what inner phases report
        r = sub(v, did)
        lk = [x for x in {y for m, _ in r[1] for y, _e in m} if x in self.like and self.like[x][0] == i and AT[x][0] in ('j', 'jm')]
        used = set()
        for x in lk:
            j, init, hd = self.like[x]
            r2 = sub(r, atom(x))
            if x in {y for m, _ in r2[1] for y, _e in m}: continue
            if hd in used: return 'one sum per loop'
            used.add(hd); r = add(r2, init)
        if used != hs: return 'the sum over the repetitions'
        if g == ZERO or (i and self.isdid(g)): return True if r == ZERO else '0'
        return True if self.unit(i, r, g) else '%s for a step of %s' % (('its length', 'its charge', 'its energy')[i], show(g))
    def isdid(self, g):
        return all(AT[y][0] == 'did' for m, _ in g[1] for y, _e in m)
    def why(self, v, i):
        for x in {y for m, _ in v[1] for y, _e in m}:
            if x in self.inc and x not in self.like:
                for u, g, s in self.inc[x]:
                    if not self.unit(i, u, g): return ' (a repetition with a step of %s adds %s)' % (show(g)[:60], show(u)[:120])
        return ''
