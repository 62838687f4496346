"""Symbolic bounds: proves d >= 0 for integer terms from facts, min/max cases and induction over loop carried values."""
from .term import *
from . import term as T
from .loops import subst_atoms

def lin(d, a):
    """coefficient of atom a when d is linear in it and it occurs nowhere else, else None"""
    c = 0.0
    for m, k in d[1]:
        for x, e in m:
            if x == a:
                if m != ((a, 1),): return None
                c = k
            elif any(y == a for y in atoms_of(x)): return None
    return c

def atoms_of(x, memo={}):
    r = memo.get(x)
    if r is None: r = memo[x] = set(T.atoms(atom(x))) - {x}
    return r

def put(d, a, t): return subst_atoms(d, lambda q: t if q == a else None)

class Bounds:
    def __init__(self, ai, extra=None):
        self.ai = ai; self.F = ai.F; self.extra = extra or []; self.why = None

    def states(self, st):
        r = [st]
        for b in self.extra:
            r = [y for x in r for y in self.ai.assume(x, b, True)]
        return r

    def ge0(self, st, d):
        """True proved, False not provable although every part is understood, None not understood"""
        r = True; self.why = None
        for s in self.states(st):
            q = self.prove(s, d, 6, ())
            if q is not True: r = q if r is True else (None if q is None else r)
        return r

    def prove(self, st, d, depth, hyp):
        ai = self.ai
        if d[0] != 'P': return None
        if is_const(d): return cval(d) >= 0
        q = ai.query(st, rel(d, ZERO, GT | EQ, 7))
        if q is not None: return q
        if self.sumbound(st, d) >= 0: return True
        if depth == 0: return None
        # facts of the state and hypotheses added to the goal: d - h is provable and h >= 0
        for h in hyp:
            e = sub(d, h)
            if is_const(e) and cval(e) >= 0: return True
        best = False; found = False
        for m, c in sorted(d[1], key=repr):
            for a, e in m:
                x = AT[a]
                if x[0] == 'fn' and x[1] in ('min', 'max') and lin(d, a):
                    found = True
                    k = lin(d, a); alts = [put(d, a, y) for y in x[2:]]
                    anyof = (x[1] == 'max') == (k > 0)
                    rs = [self.prove(st, y, depth - 1, hyp) for y in alts]
                    if anyof and True in rs or not anyof and all(r is True for r in rs): return True
                    if None in rs: best = None
                elif x[0] == 'j' and lin(d, a):
                    found = True
                    r = self.induct(a, x, d, depth, hyp)
                    if r is True: return True
                    if r is None: best = None
                elif x[0] == 'sel':
                    found = True
                    rs = []
                    for v, y in ((True, x[2]), (False, x[3])):
                        for s in ai.assume(st, x[1], v): rs.append(self.prove(s, put(d, a, topoly(y)), depth - 1, hyp))
                    if rs and all(r is True for r in rs): return True
                    if None in rs: best = None
                elif x[0] in ('arg', 'E', 'lb', 'ld', 'q') or x[0] == 'fn' and x[1] in ('trunc',) or x[0] == 'p2i' and AT[x[1]][0] in ('arg', 'E'): pass
                elif x[0] == 'm' or x[0] == 'ldm': pass
                else: best = None
        if best is None: self.why = show(d)
        return best

    def sumbound(self, st, d):
        """lower bound of a sum from the bounds of its parts"""
        k = 0.0
        for m, c in d[1]:
            if m == (): k += c; continue
            lo, hi = self.ai.ival(st, ('P', ((m, 1.0),)))
            b = lo * c if c > 0 else hi * c
            if b != b or b == -float('inf'): return -float('inf')
            k += b
        return k

    def induct(self, a, x, d, depth, hyp):
        F, ai = self.F, self.ai; h, pid = x[1], x[2]
        I = F.ins.get(pid)
        if I is None or I['op'] != 'phi' : return None
        loop = F.loops.get(h)
        res = True
        for v, pb in I['in']:
            back = loop is not None and pb in loop['body']
            for s in ai.edges.get((pb, h), []):
                t = topoly(ai.val(s, v))
                if t == atom(a): continue
                g = put(d, a, t)
                for s2 in self.states(s):
                    if back:
                        if t[0] != 'P' or not is_const(sub(t, atom(a))):
                            r = self.prove(s2, g, depth - 1, hyp + (d,))
                            if r is not True: r = None
                        else: r = self.prove(s2, g, depth - 1, hyp + (d,))
                    else: r = self.prove(s2, g, depth - 1, hyp)
                    if r is False: return False
                    if r is None: res = None
        return res
