"""Reductions over pack members: closed forms of loop carried values (sums, minima, maxima) and how they are compared."""
from .term import *
from . import term as T
from .interp import Hooks
from .loops import Loops, subst_atoms, method

GEN = A(('k0',))

class SplitPhi(Hooks):
    """keep states apart by the floating point values merged outside loops"""
    K = 48
    def key(self, ai, st, blk):
        if blk in ai.F.loops: return None
        r = []
        for I in ai.F.blocks[blk]:
            if I['op'] != 'phi': break
            if I['ty'] == 'double': r.append(st.env.get(I['id']))
        return tuple(r)

class Agg:
    def __init__(self, ctx, F, P, cls, hooks=None):
        self.ai = ctx.ai(F, P, hooks or SplitPhi(), cls, loops=True)
        self.L = Loops(self.ai); self.F = F; self.P = P; self.cls = cls
        self.errs = []

    def field(self, name, sz=8):
        f = self.P.field(self.cls, name)
        return f[0] if f else None

    def entry(self, off): return atom(('E', self.ai.this, off))
    def entryp(self, off): return ptr(('E', self.ai.this, off))

    def seq(self, name):
        """(begin, end) of a std::vector member at entry, as polynomials"""
        o = self.field(name)
        return topoly(self.entryp(o)), topoly(self.entryp(o + 8))

    def expand(self, t, st, depth=0):
        """closed form of a value at a state after its loops"""
        if t[0] == 'B': return t
        t = self.L.norm(topoly(t))
        if depth > 4: return t
        def f(a):
            x = AT[a]
            if x[0] not in ('j', 'jm'): return None
            c = self.L.carried(a)
            if not c or not c[1]: return None
            h, info = c
            r = self.reduce(a, h, info, st, depth)
            return r
        return subst_atoms(t, f)

    def left_by_count(self, h, st):
        """N of the counting exit through which the loop was left in this state"""
        F = self.F; ai = self.ai; out = []
        for (x, s) in F.loops[h]['exits']:
            for st2, c, succ in ai.conds.get(x, []):
                if s not in succ or c[1] == 'c': continue
                ex = c if succ[0] == s else bnot(c)
                if ai.query(st, ex) is not True: continue
                N = self.L.solve(self.L.norm(bnot(ex)), self.L.k(h))
                if N is not None: out.append((x, N))
        return out

    def reduce(self, a, h, info, st, depth):
        L = self.L; K = L.k(h)
        ini = {self.expand(x, st, depth + 1) for x in info['init'] if x[0] == 'P'}
        upd = {L.norm(x) for x in info['upd'] if x[0] == 'P'}
        if len(ini) != 1 or len(upd) != 1: return None
        i0 = next(iter(ini)); u = next(iter(upd))
        ns = {N for x, N in self.left_by_count(h, st)}
        if len(ns) != 1: return None
        N = next(iter(ns))
        d = sub(u, atom(a))
        if a not in T.atoms(d):
            e, N = self.canon(d, K, N)
            if not e[1]: return i0
            return add(i0, atom(('SUM', e, N)))
        ua = as_atom(u)
        if ua is not None and AT[ua][0] == 'fn' and AT[ua][1] in ('min', 'max'):
            xs = [x for x in AT[ua][2:] if x != atom(a)]
            if len(xs) == 1 and a not in T.atoms(xs[0]):
                e, N = self.canon(xs[0], K, N, i0)
                first = subst_atoms(e, lambda q: const(-1) if q == GEN else None)
                if first == i0:    # the initial value is the element before the first: one longer reduction
                    e = subst_atoms(e, lambda q: sub(atom(GEN), ONE) if q == GEN else None)
                    return atom((AT[ua][1].upper(), e, add(N, ONE)))
                return atom((AT[ua][1].upper(), e, N, i0))
        return None

    def canon(self, e, K, N, i0=None):
        """element expression over the generic index, iterated upwards"""
        g = subst_atoms(e, lambda q: atom(GEN) if q == K else None)
        def coef(p, out):
            for at_ in T.atoms(p):
                x = AT[at_]
                if x[0] == 'm': scan(x[2], out)
                elif x[0] == 'ldm': scan(x[1], out)
        def scan(p, out):
            if p is None: return
            for m, c in p[1]:
                if m == ((GEN, 1),): out.append(c)
        cs = []; coef(g, cs)
        if cs and all(c < 0 for c in cs):
            g = subst_atoms(g, lambda q: sub(sub(N, ONE), atom(GEN)) if q == GEN else None)
        return g, N

    # expected terms
    def elem(self, meth, seq='SUs', args=(), off=0):
        b, e = self.seq(seq)
        return atom(('m', meth, add(add(b, scale(atom(GEN), 8)), const(8 * off)), tuple(args)))
    def ld(self, seq):
        b, e = self.seq(seq)
        return atom(('ldm', add(b, scale(atom(GEN), 8))))
    def n(self, seq='SUs'):
        b, e = self.seq(seq); return scale(sub(e, b), 0.125)
    def SUM(self, e, n=None): return atom(('SUM', e, n if n is not None else self.n()))
    def MIN(self, e): return atom(('MIN', e, self.n()))
    def MAX(self, e): return atom(('MAX', e, self.n()))
    def first(self, meth, args=()):
        b, e = self.seq('SUs'); return atom(('m', meth, b, tuple(args)))
    def empty(self, st):
        b, e = self.seq('SUs')
        return self.ai.query(st, rel(b, e, EQ, 7)) is True
