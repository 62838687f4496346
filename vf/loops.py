"""Induction variables, trip counts, member coverage and reductions on top of a finished abstract interpretation."""
from .term import *
from . import term as T
from .interp import AI, same

def subst_atoms(t, f, memo=None):
    """replace atoms by terms: f(atom id) -> term or None (keep, but rebuild nested)"""
    if memo is None: memo = {}
    def poly(p):
        r = memo.get(p)
        if r is not None: return r
        out = ZERO
        for m, c in p[1]:
            x = const(c)
            for a, e in m:
                y = at(a)
                if e >= 0:
                    for _ in range(e): x = mul(x, y)
                else:
                    for _ in range(-e): x = mul(x, T.inv(y))
            out = add(out, x)
        memo[p] = out
        return out
    def at(a):
        k = ('a', a)
        if k in memo: return memo[k]
        r = f(a)
        if r is None:
            t = AT[a]
            def g(x):
                if isinstance(x, tuple):
                    if x and x[0] == 'P' and len(x) == 2 and isinstance(x[1], tuple): return poly(x)
                    return tuple(g(y) for y in x)
                return x
            if t[0] == 'p2i':
                y = at(t[1]); r = y if AT_ptrlike(t[1]) and as_atom(y) != t[1] else atom(a)
                if as_atom(y) == t[1]: r = atom(a)
                else: r = y
            elif t[0] in ('fn', 'fabs', 'mul', 'poly', 'sel', 'ld', 'op', 'm', 'ldm', 'SUM', 'MIN', 'MAX'):
                n = g(t)
                if t[0] == 'fabs': r = fabs(n[1])
                elif t[0] == 'mul': r = mul(n[1], n[2])
                elif t[0] == 'poly': r = n[1]
                else: r = atom(n)
            else: r = atom(a)
        memo[k] = r
        return r
    if t[0] == 'P': return poly(t)
    if t[0] == 'ptr':
        return add(poly(topoly(('ptr', t[1], ZERO))), poly(t[2]))
    if t[0] == 'B':
        def gb(x):
            if isinstance(x, tuple):
                if x and x[0] == 'P' and len(x) == 2 and isinstance(x[1], tuple): return poly(x)
                return tuple(gb(y) for y in x)
            return x
        if t[1] == 'rel':
            v = poly(t[2]); return T.rel(v, const(t[3]), t[4], t[5])
        return gb(t)
    return poly(topoly(t))

def AT_ptrlike(a): return True

class Loops:
    """containers: {name: (begin term, end term)} evaluated at entry"""
    def __init__(self, ai, containers=None, elem=8):
        self.ai = ai; self.F = ai.F
        self.iv = {}       # j atom -> (kappa atom, init poly, step const)
        self.kap = {}      # kappa atom -> header
        self.phis = {}     # (h, k) -> {'init': set, 'upd': set}
        self.site = {}
        for I, st, args in ai.sites: self.site.setdefault(I['id'], []).append((I, st, args))
        self.cont = {}
        for h in self.F.rpo:
            if h in self.F.loops: self._loop(h)
        self.containers = containers or {}
        self.elem = elem

    def k(self, h): return A(('kappa', h))

    def _loop(self, h):
        F, ai = self.F, self.ai; L = F.loops[h]
        self.kap[self.k(h)] = h
        hdr = [I for I in F.blocks[h] if I['op'] == 'phi']
        for I in hdr:
            ini, upd = set(), set()
            for v, pb in I['in']:
                for s in ai.edges.get((pb, h), []):
                    t = ai.val(s, v)
                    (upd if pb in L['body'] else ini).add(topoly(t) if t[0] != 'B' else t)
            self.phis[(h, I['id'])] = {'init': ini, 'upd': upd, 'ty': I['ty']}
            j = A(('j', h, I['id']))
            jp = topoly(('ptr', j, ZERO)) if I['ty'] == 'ptr' else atom(j)
            if len(ini) >= 1 and upd and I['ty'] not in ('double', 'i1'):
                d = {sub(u, jp) for u in upd if u[0] == 'P' and u != jp}
                # a value unchanged in the last analysed iteration contributes step 0
                same_ = any(u == jp for u in upd)
                if len(d) == 1 and not same_:
                    st = next(iter(d))
                    if is_const(st) and cval(st):
                        self.iv[j] = (h, ini, cval(st))
        # loop carried memory
        mem = {}
        for st in ai.inst[h].values():
            for base, o in st.mem.items():
                for x, (t, s) in o.cells.items():
                    a = as_atom(t) if t[0] == 'P' else None
                    if a is not None and AT[a] == ('jm', base, x, h): mem[(base, x)] = s
        for (base, x), sz in mem.items():
            ini, upd = set(), set()
            for p in F.pred[h]:
                for s in ai.edges.get((p, h), []):
                    (upd if p in L['body'] else ini).add(ai.read(s, base, x))
            self.phis[(h, ('m', base, x))] = {'init': ini, 'upd': upd, 'ty': 'mem'}

    # ---- normalisation to iteration numbers ---------------------------------
    def norm(self, t, depth=0):
        def f(a):
            v = self.iv.get(a)
            if v is None:
                x = AT[a]
                if x[0] == 'call' and depth < 6:
                    m = self.member_call(a, depth + 1)
                    if m: return atom(m)
                if x[0] == 'E' and AT[x[1]][0] in ('j',) and depth < 6:   # load through a pointer induction variable
                    ad = self.norm(('ptr', x[1], const(x[2])), depth + 1)
                    return atom(('ldm', ad))
                if x[0] == 'ld' and depth < 6:
                    ad = self.norm(('ptr', x[1], x[2]), depth + 1)
                    return atom(('ldm', ad) + ((x[3],) if x[3] else ()))
                return None
            h, ini, step = v
            if len(ini) != 1: return None
            i0 = self.norm(next(iter(ini)), depth + 1) if depth < 6 else next(iter(ini))
            return add(i0, scale(atom(self.k(h)), step))
        return subst_atoms(t, f)

    def member_call(self, a, depth=0):
        """describe a call result as (m, method, address of the pointer the receiver was loaded from)"""
        x = AT[a]
        S = self.site.get(x[1])
        if not S or not S[0][2]: return None
        rc = {self.addr_of(s[2][0], depth) for s in S if s[2]}
        if len(rc) != 1: return None
        r = next(iter(rc))
        if r is None: return None
        args = []
        for i in range(1, len(S[0][2])):
            v = {self.norm(s[2][i], depth) for s in S if s[2][i][0] == 'P'} if depth < 5 else set()
            args.append(next(iter(v)) if len(v) == 1 else None)
        return ('m', method(x[2]), r, tuple(args))

    def addr_of(self, t, depth=0):
        """where a pointer value was loaded from (normalised address), or None"""
        p = toptr(t)
        if p[2] != ZERO: return None
        x = AT[p[1]]
        if x[0] == 'E': return self.norm(('ptr', x[1], const(x[2])), depth)
        if x[0] == 'ld': return self.norm(('ptr', x[1], x[2]), depth)
        if x[0] == 'hv': return self.norm(('ptr', x[1], const(x[2])), depth)
        return None

    def index(self, addr, begin):
        """element index of an address relative to a container start"""
        if addr is None: return None
        return scale(sub(addr, topoly(begin)), 1.0 / self.elem)

    # ---- trip counts --------------------------------------------------------
    def trip(self, h, blk=None):
        """set of terms N: iterations 0..N-1 of loop h execute block blk (other exits permitting)"""
        F, ai = self.F, self.ai; L = F.loops[h]; K = self.k(h)
        out = []
        for (x, s) in L['exits']:
            for st, c, succ in ai.conds.get(x, []):
                if s not in succ: continue
                cont = c if succ[0] != s else bnot(c)
                if c[1] == 'c': continue
                n = self.norm(cont)
                N = self.solve(n, K)
                if N is None: continue
                if blk is not None and not F.dominates(x, blk):
                    N = add(N, ONE)    # tested after the block: one more execution
                out.append((x, N))
        return out

    def solve(self, c, K):
        """largest N such that the condition holds for iteration numbers 0..N-1"""
        if c[1] == 'and':
            for p in (c[2], c[3]):
                N = self.solve(p, K)
                if N is not None: return N
            return None
        if c[1] != 'rel': return None
        var, k, mask = c[2], c[3], c[4] & 7
        a = 0.0; r = ZERO
        for m, co in var[1]:
            if m == ((K, 1),): a = co
            elif any(x == K for x, e in m): return None
            else: r = add(r, ('P', ((m, co),)))
        if not a: return None
        if K in T.atoms(r): return None
        b = scale(sub(const(k), r), 1.0 / a)
        if a < 0: mask = (mask & EQ) | (LT if mask & GT else 0) | (GT if mask & LT else 0)
        if mask == LT: return b
        if mask == (LT | EQ): return add(b, ONE)
        if mask == (LT | GT): return b
        return None

    def loop_of_kappa(self, t):
        return [AT[a][1] for a in T.atoms(t) if AT[a][0] == 'kappa']

    def coverage(self, idx, blk, h=None):
        """(lo, hi) half open range of values idx takes at block blk, or None; list of alternatives from several tests"""
        hs = self.loop_of_kappa(idx)
        if h is None:
            if len(set(hs)) != 1: return [(idx, add(idx, ONE))] if not hs else None
            h = hs[0]
        K = self.k(h)
        a = 0.0; r = ZERO
        for m, co in idx[1]:
            if m == ((K, 1),): a = co
            elif any(x == K for x, e in m): return None
            else: r = add(r, ('P', ((m, co),)))
        if K in T.atoms(r) or a not in (1.0, -1.0): return None
        out = []
        for x, N in self.trip(h, blk):
            out.append((r, add(r, N)) if a == 1.0 else (sub(add(r, ONE), N), add(r, ONE)))
        return out

    def every_iteration(self, h, blk):
        """block executes in every iteration that goes on to the next one"""
        return all(self.F.dominates(blk, q) for q in self.F.loops[h]['latches'])

    # ---- reductions ---------------------------------------------------------
    def carried(self, a):
        """(h, info) of a loop carried atom"""
        x = AT[a]
        if x[0] == 'j': return (x[1], self.phis.get((x[1], x[2])))
        if x[0] == 'jm': return (x[3], self.phis.get((x[3], ('m', x[1], x[2]))))
        return None

def method(callee):
    c = callee
    if c.startswith('vcall:'): c = c[6:]
    c = c.split('(')[0]
    return c.split('#')[-1].split('::')[-1]
