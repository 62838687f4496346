"""The degradation mechanisms of the single particle cell: which model each identifier selects and what it contributes to which output."""
from .core import *
from .dtab import Paths
from .loops import Loops, method
from .interp import INF
from . import pit, term as T

CLS = 'slide::Cell_SPM'

class HP(Paths):
    K = 512; collect = True
    def call(self, ai, st, I, callee, args):
        if method(callee) == 'interp':      # table lookups change nothing (D04, F04)
            r = [(st, atom(('call', I['id'], callee)), 'ret')]
            if I['op'] == 'invoke': r.append((st.clone(), None, 'unw'))
            return r
    def exitkey(self, ai, st): return (frozenset(st.facts.items()), frozenset(st.bf.items()))

# outputs of each mechanism by position of its pointer parameter, and the documented identifiers
MECH = {
    'SEI': dict(sig='(double, double, double*, double*)', outs=('isei', 'den_sei'), list='SEI_id', ids=range(0, 5), opt=('SEI_porosity', 'den_sei')),
    'CS': dict(sig='(double, double, double*, double*, double*)', outs=('isei_multiplyer', 'dCS', 'dDn'), list='CS_id', ids=range(0, 6), opt=('CS_diffusion', 'dDn')),
    'LAM': dict(sig='(bool, double, double, double*, double*, double*, double*, double*, double*)', outs=('dthickp', 'dthickn', 'dap', 'dan', 'dep', 'den'), list='LAM_id', ids=range(0, 5), opt=None),
    'LiPlating': dict(sig='(double, double)', outs=('ipl',), list=None, ids=range(0, 2), opt=None),
}
PROBE = list(range(0, 14)) + [100, 106, 200, 255]

class Mech:
    def __init__(self, ctx, name):
        self.name = name; self.ok = False; self.why = ''
        m = MECH[name]; self.m = m
        fs = ctx.find(r'^\w* ?slide::Cell_SPM::%s\(' % name)
        if len(fs) != 1 or not fs[0]['dem'].endswith('::' + name + m['sig']): self.why = 'its parameters are not the known ones'; return
        self.fn = fs[0]['name']
        P = ctx.load([dict(name=name, cls=CELLS['Cell_SPM'], fn=self.fn)], unroll=True, never=[r'slide::XYdata[A-Za-z_]*(<.*>)?::interp\('])
        F = P.fn(name)
        if F is None: self.why = 'not found'; return
        self.P, self.F = P, F
        a = self.a = ctx.ai(F, P, HP(), CLS, loops=True); self.L = Loops(a); self.th = a.this
        self.deg = P.field(CLS, 'deg_id')[0]
        self.outarg = [p['id'] for p in F.pargs[1:] if p['ty'] == 'ptr'] if name != 'LiPlating' else []
        self.rets = [e for e in a.exits if e['kind'] == 'ret']
        self.ok = bool(self.rets)
        if not self.ok: self.why = 'no normal exit'; return
        self.loops()

    def off(self, n):
        f = self.P.field('slide::DEG_ID', n)
        return None if f is None else self.deg + f[0]

    def idatoms(self, st):
        """atoms that stand for an identifier in the facts of a state"""
        lo = self.off(self.m['list']) if self.m['list'] else None; r = set()
        for v in list(st.facts):
            for x in T.atoms(topoly(v) if isinstance(v, tuple) else atom(v)) if not isinstance(v, int) else (v,):
                if self.isid(x): r.add(x)
        return r

    def isid(self, x):
        t = AT[x]
        if self.m['list'] is None: return t == ('E', self.th, self.off('pl_id'))
        if t[0] == 'E' and AT[t[1]][0] == 'j' and t[2] == 0:
            inf = self.L.phis.get((AT[t[1]][1], AT[t[1]][2]))
            return inf is not None and any(self.inlist(i) for i in inf['init'])
        if t[0] in ('ld', 'E') and t[1] == self.th:
            o = topoly(t[2]) if isinstance(t[2], tuple) else const(t[2])
            return any(self.inlist(add(topoly(A_ptr(self.th)), const(c))) for m, c in o[1] if m == ())
        return False

    def inlist(self, p):
        d = sub(topoly(p), topoly(A_ptr(self.th)))
        lo = self.off(self.m['list'])
        return is_const(d) and lo <= cval(d) < lo + 10

    def loops(self):
        """the loop over the selected models and the atom of its current identifier"""
        self.h = None; self.idat = None
        if self.m['list'] is None:
            self.idat = A(('E', self.th, self.off('pl_id'))); return
        c = {}
        for h in self.F.loops:
            for l in self.F.loops[h]['latches']:
                for st in self.a.edges.get((l, h), []):
                    for x in self.idatoms(st): c.setdefault((h, x), 0)
        if len(c) == 1: (self.h, self.idat), = c
        elif c: self.why = 'more than one loop over the identifiers'; self.ok = False
        else: self.ok = False; self.why = 'no loop over the identifiers found'

    def ids(self, st):
        """identifiers a state is possible for"""
        return [k for k in PROBE if self.a.query(st, rel(atom(self.idat), const(k), EQ, 7)) is not False]

    def outs(self, e):
        """value of each output at an exit"""
        r = {}
        if self.name == 'LiPlating': return {'ipl': e['val']}
        for n, i in zip(self.m['outs'], self.outarg): r[n] = self.a.read(e['st'], A(('arg', i)), 0)
        return r

    def acc(self, t):
        """the loop carried accumulator an output is read from: (atom, remainder) or None"""
        xs = [x for x in T.atoms(topoly(t)) if AT[x][0] in ('j', 'jm') and (AT[x][1] if AT[x][0] == 'j' else AT[x][3]) == self.h]
        return xs

    def upd(self, st, l, x):
        t = AT[x]
        if t[0] == 'j':
            I = next(i for i in self.F.blocks[self.h] if i['id'] == t[2])
            return topoly(self.a.val(st, next(v for v, b in I['in'] if b == l)))
        return topoly(self.a.read(st, t[1], t[2]))

    def each_model_once(self):
        """does the loop run over the whole list, one entry at a time?  True / False / None"""
        L, F = self.L, self.F
        N = self.P.field('slide::DEG_ID', self.m['list'] + '.N')
        n = atom(('E', self.th, self.deg + N[0])); lo = topoly(A_ptr(self.th)); lo = add(lo, const(self.off(self.m['list'])))
        t = AT[self.idat]
        if t[0] == 'E': ad = L.norm(('ptr', t[1], const(t[2])))
        elif t[0] == 'ld': ad = L.norm(('ptr', t[1], t[2]))
        else: return None, 'identifier %s' % show(atom(self.idat))
        K = atom(('kappa', self.h))
        d = sub(topoly(ad), lo)
        trips = {x for _, x in L.trip(self.h)}
        if len(trips) != 1: return None, 'number of iterations unknown: %s' % [(b, show(x)) for b, x in L.trip(self.h)]
        N = next(iter(trips))
        dom = lambda t: (0, 10, 'int') if t == ('E', self.th, AT[as_atom(n)][2]) else (0, 9, 'int') if t == ('kappa', self.h) else None
        def opq(t): return any(AT[q][0] in ('call', 'hv', 'j', 'jm', 'ld', 'ldm', 'undef', 'm') for q in T.atoms(t))
        q = None if opq(N) else pit.equal(N, n, None, dom)
        if q is None: return None, 'number of iterations %s' % show(N)
        if q is False: return False, 'the loop visits %s of the %s selected models' % (show(N), show(n))
        if d == K or d == sub(sub(n, ONE), K): return True, ''
        if opq(d): return None, 'address %s' % show(d)
        if pit.equal(d, K, None, dom) or pit.equal(d, sub(sub(n, ONE), K), None, dom): return True, ''
        if all(AT[q][0] in ('E', 'kappa') for q in T.atoms(d)): return False, 'entry %s is used in iteration k' % show(d)
        return None, 'address %s' % show(d)

def A_ptr(a): return ('ptr', a, ZERO)
