"""Which members of a pack a call reaches: index range of a call site inside a loop over the member vector."""
from .term import *
from .loops import Loops, method
from . import interp

class Members:
    def __init__(self, ctx, F, P, cls, ai, seq='SUs', single=None):
        self.F = F; self.P = P; self.ai = ai; self.cls = cls
        self.L = Loops(ai)
        f = P.field(cls, seq)
        self.kind = None
        if f:
            o = f[0]; t = ai.this
            self.begin = topoly(ptr(('E', t, o))); self.end = topoly(ptr(('E', t, o + 8))); self.n = scale(sub(self.end, self.begin), 0.125); self.kind = 'vector'
        if single:
            f = P.field(cls, single)
            if f: self.single = topoly(('ptr', ai.this, const(f[0]))); self.kind = 'single'

    def receiver(self, st, t):
        """normalised address a receiver pointer was loaded from"""
        return self.L.addr_of(t)

    def range(self, I, st, t, every=True):
        """'all', ('first',k), None(not understood) or a text describing a partial range, for the receiver term t at call I"""
        L, F = self.L, self.F
        a = self.receiver(st, t)
        if a is None: return None
        if self.kind == 'single': return 'all' if a == self.single else None
        idx = scale(sub(a, self.begin), 0.125)
        hs = sorted(set(L.loop_of_kappa(idx)))
        bad = [x for x in T_atoms(idx) if AT[x][0] in ('j', 'jm', 'hv', 'ldx', 'call', 'p2i', 'E')]
        if not hs:
            if not bad and is_const(idx): return 'only member %g' % cval(idx)
            if idx == sub(self.n, ONE): return 'only the last member'
            return None
        if len(hs) > 1: return None
        h = hs[0]; b = F.blk[I['id']]
        cov = L.coverage(idx, b)
        if not cov: return None
        if every and not L.every_iteration(h, b):
            return 'only some of the members (%s is not executed in every iteration)' % F.loc(I)
        los = {c[0] for c in cov}; his = {c[1] for c in cov}
        if los == {ZERO} and his == {self.n}:
            e = self.escape(h)
            return 'all' if e is None else 'not every member, the loop can be left early at ' + e
        if len(los) == 1 and len(his) == 1: return 'members %s to %s of %s' % (show(next(iter(los))), show(next(iter(his))), show(self.n))
        return None

    def escape(self, h):
        """an exit of the loop from which the function returns although members are left"""
        F = self.F
        ns = {(x, s) for x, s in F.loops[h]['exits']}
        good = set()
        for x, s in ns:
            for st2, c, succ in self.ai.conds.get(x, []):
                if s not in succ or c[1] == 'c': continue
                cont = c if succ[0] != s else bnot(c)
                N = self.L.solve(self.L.norm(cont), self.L.k(h))
                if N is not None: good.add((x, s))
        rets = {b for b in F.rpo if F.blocks[b] and F.blocks[b][-1]['op'] == 'ret'}
        for x, s in ns - good:
            if F.reach(s) & rets:
                T = F.blocks[x][-1]
                if T['op'] == 'invoke' and s == T.get('unw'):
                    if not (F.reach(s) & rets): continue
                return F.loc(T)
        return None

    def empty(self, st):
        return self.kind == 'vector' and self.ai.query(st, rel(self.begin, self.end, EQ, 7)) is True

def T_atoms(t):
    from . import term
    return term.atoms(t)
