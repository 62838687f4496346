"""Identity testing of closed forms.

Two terms that are not the same normal form are compared by evaluating both forms (the formulas, not the program) at pseudo-random values of
their atoms, within the facts known in a state.  Equal everywhere: the same function (Schwartz-Zippel); different somewhere: a witness."""
import hashlib, math
from .term import *
from . import term as T

class Undef(Exception): pass

class Env:
    """values for atoms; dom(atom tuple) -> (lo, hi[, 'int']) or None"""
    def __init__(self, seed, dom=None, fix=None):
        self.seed = seed; self.dom = dom; self.v = dict(fix or {}); self.bools = {}
    def rnd(self, k):
        h = hashlib.sha256(repr((self.seed, k)).encode()).digest()
        return int.from_bytes(h[:7], 'big') / 2.0 ** 56
    def val(self, a):
        r = self.v.get(a)
        if r is None:
            d = self.dom(AT[a]) if self.dom else None
            u = self.rnd(('a', a))
            if d: 
                r = d[0] + u * (d[1] - d[0])
                if len(d) > 2: r = float(math.floor(r + 0.5))
            else:
                r = 0.3 + 2.7 * u
                if self.rnd(('s', a)) < 0.5: r = -r
            self.v[a] = r
        return r

def ev(t, env):
    t = t if t[0] in ('P', 'B') else topoly(t)
    if t[0] == 'B': return float(evb(t, env))
    s = 0.0
    for m, c in t[1]:
        x = c
        for a, e in m:
            y = eva(a, env)
            if e < 0 and y == 0: raise Undef()
            x *= y ** e
        s += x
    if s != s or abs(s) == math.inf: raise Undef()
    return s

F1 = {'sqrt': lambda x: math.sqrt(x) if x >= 0 else undef(), 'exp': lambda x: math.exp(x) if x < 600 else undef(), 'sinh': lambda x: math.sinh(x) if abs(x) < 600 else undef(), 'asinh': math.asinh,
      'log': lambda x: math.log(x) if x > 0 else undef(), 'log10': lambda x: math.log10(x) if x > 0 else undef(), 'cosh': lambda x: math.cosh(x) if abs(x) < 600 else undef(), 'tanh': math.tanh,
      'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'atan': math.atan, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'fabs': abs, 'fptrunc': lambda x: x, 'round': lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)}
def undef(): raise Undef()

def eva(a, env):
    if a in env.v: return env.v[a]
    x = AT[a]; k = x[0]
    if k == 'fabs': r = abs(ev(x[1], env))
    elif k == 'poly': r = ev(x[1], env)
    elif k == 'mul': r = ev(x[1], env) * ev(x[2], env)
    elif k == 'sel': r = ev(x[2], env) if evb(x[1], env) else ev(x[3], env)
    elif k == 'B': r = float(evb(x, env))
    elif k == 'fn' and x[1] in F1: r = float(F1[x[1]](ev(x[2], env)))
    elif k == 'fn' and x[1] in ('min', 'max'): r = (min if x[1] == 'min' else max)(ev(x[2], env), ev(x[3], env))
    elif k == 'fn' and x[1] == 'pow':
        b, e = ev(x[2], env), ev(x[3], env)
        try: r = b ** e
        except (OverflowError, ZeroDivisionError): raise Undef()
        if isinstance(r, complex): raise Undef()
    elif k == 'fn' and x[1] in ('and', 'or', 'xor', 'lshr', 'ashr', 'shl') and len(x) == 4:
        b, e = ev(x[2], env), ev(x[3], env)
        if b != int(b) or e != int(e) or b < 0 or e < 0 or (x[1] not in ('and', 'or', 'xor') and e > 62): raise Undef()
        b, e = int(b), int(e); r = float({'and': b & e, 'or': b | e, 'xor': b ^ e}[x[1]] if x[1] in ('and', 'or', 'xor') else b << e if x[1] == 'shl' else b >> e)
    elif k == 'fn' and x[1] in ('sdiv', 'udiv', 'srem', 'urem', 'frem'):
        b, e = ev(x[2], env), ev(x[3], env)
        if e == 0: raise Undef()
        r = float(math.trunc(b / e)) if x[1].endswith('div') else math.fmod(b, e)
    else: return env.val(a)
    env.v[a] = r
    return r

def evb(b, env):
    if b[1] == 'c': return b[2]
    if b[1] == 'rel':
        v = ev(b[2], env); d = v - b[3]
        if abs(d) <= 1e-9 * max(1.0, abs(v), abs(b[3])): o = EQ
        else: o = LT if d < 0 else GT
        return bool(b[4] & o)
    if b[1] == 'and': return evb(b[2], env) and evb(b[3], env)
    if b[1] == 'or': return evb(b[2], env) or evb(b[3], env)
    if b[1] == 'not': return not evb(b[2], env)
    if b[1] == 'atom':
        t = b[2]
        a = as_atom(t) if t[0] == 'P' else None
        if a is not None and AT[a][0] not in ('fabs', 'poly', 'mul', 'sel', 'fn'):
            k = ('b', a)
            if k not in env.bools: env.bools[k] = env.rnd(k) < 0.5
            return env.bools[k]
        return bool(ev(t, env))
    raise Undef()

def holds(st, env):
    """does the point satisfy the facts of a state?"""
    for var, (lo, lop, hi, hop, nan, neq) in st.facts.items():
        try: v = ev(var, env)
        except Undef: return False
        if v < lo or v > hi or (lop and v == lo) or (hop and v == hi) or v in neq: return False
    for b, want in st.bf.items():
        try:
            if evb(b, env) != want: return False
        except Undef: return False
    return True

def equal(a, b, st=None, dom=None, n=12, tries=400, tol=1e-7, fix=None):
    """True: same function on the points that satisfy the facts; False: a point where they differ; None: no point found"""
    a = a if a[0] == 'B' else topoly(a); b = b if b[0] == 'B' else topoly(b)
    if a == b: return True
    good = 0
    for s in range(tries):
        e = Env(s, dom, fix)
        try:
            if st is not None and not holds(st, e): continue
            x, y = ev(a, e), ev(b, e)
        except (Undef, OverflowError): continue
        if abs(x - y) > tol * max(1.0, abs(x), abs(y)) if max(abs(x), abs(y)) > 1e-3 else abs(x - y) > tol * max(abs(x), abs(y)) + 1e-15: return False
        good += 1
        if good >= n: return True
    return True if good >= n else None

def related(st, b):
    """the facts of a state that share an atom with a predicate, directly or through other facts"""
    base = set(AT_base(b)); F = [(v, AT_base(v), ('f', v)) for v in st.facts] + [(x, AT_base(x), ('b', x)) for x in st.bf]
    out = []; ch = True
    while ch:
        ch = False
        for f in list(F):
            if f[1] & base: out.append(f[2]); base |= f[1]; F.remove(f); ch = True
    return out

def AT_base(t):
    r = set()
    for a in T.atoms(t):
        if AT[a][0] not in ('fabs', 'poly', 'mul', 'sel', 'B') and not (AT[a][0] == 'fn' and (AT[a][1] in F1 or AT[a][1] in ('min', 'max'))): r.add(a)
    return r

class _Sub: pass

def implied(ai, st, b, dom=None, n=8, tries=3000):
    """does every point that satisfies the facts of a state satisfy the predicate?  True / False / None (cannot tell)"""
    q = ai.query(st, b)
    if q is not None: return q
    R = related(st, b); s = _Sub(); s.facts = {v: st.facts[v] for k, v in R if k == 'f'}; s.bf = {v: st.bf[v] for k, v in R if k == 'b'}
    good = 0
    for i in range(tries):
        e = Env(i, dom)
        try:
            if not holds(s, e): continue
            if not evb(b, e): return False
        except (Undef, OverflowError): continue
        good += 1
        if good >= n: return True
    return True if good >= 2 else None
