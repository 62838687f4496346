"""Value numbering terms: real-arithmetic normal form (sum of monomials over atoms), pointers, predicates.

A term is one of
  ('P', ((mono, coeff), ...))   polynomial; mono is a sorted tuple of (atom, exponent); () is the constant
  ('ptr', base_atom, off)       pointer: base atom plus a polynomial byte offset
  ('B', ...)                    boolean: ('B','c',bool) / ('B','rel',var,k,mask) / ('B','atom',a) / and / or / not
Atoms are interned tuples, represented by integers (see A / AT).
Floating point arithmetic is treated as exact real arithmetic (coefficients rounded to 12 digits).
"""
LT, EQ, GT, UN = 1, 2, 4, 8

AT = []      # id -> tuple
_AI = {}
def A(t):
    i = _AI.get(t)
    if i is None:
        i = len(AT); _AI[t] = i; AT.append(t)
    return i
def isA(a, *kinds): return AT[a][0] in kinds

def rnd(x):
    if x == int(x) and abs(x) < 1e15: return float(int(x))
    return float('%.12g' % x)

def const(x): 
    x = rnd(float(x))
    return ('P', () if x == 0 else (((), x),))

ZERO = ('P', ())
ONE = const(1)

def key(x): return repr(x)

def mk(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) > 1: items.sort(key=lambda t: t[0])
    return ('P', tuple(items))

def atom(a):
    if not isinstance(a, int): a = A(a)
    return ('P', ((((a, 1),), 1.0),))

def is_const(t): return t[0] == 'P' and (not t[1] or (len(t[1]) == 1 and t[1][0][0] == ()))
def cval(t): 
    if not is_const(t): return None
    return t[1][0][1] if t[1] else 0.0

def as_atom(t):
    if t[0] == 'P' and len(t[1]) == 1:
        m, c = t[1][0]
        if c == 1.0 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return None

def topoly(t):
    if t[0] == 'P': return t
    if t[0] == 'ptr':
        b = AT[t[1]]
        if b[0] == 'val' and b[1] == ZERO: return t[2]      # null
        return add(atom(('p2i', t[1])), t[2])
    if t[0] == 'B':
        if t[1] == 'c': return const(1 if t[2] else 0)
        return atom(t)
    return atom(t)

def add(a, b, s=1.0):
    a = topoly(a); b = topoly(b)
    if not b[1]: return a
    if not a[1] and s == 1.0: return b
    d = dict(a[1])
    for m, c in b[1]:
        v = d.get(m, 0.0)
        n = v + s * c
        if abs(n) <= 1e-11 * max(abs(v), abs(c)): n = 0.0
        d[m] = rnd(n) if n else 0.0
    return mk(d)

def sub(a, b): return add(a, b, -1.0)
def neg(a): return scale(a, -1.0)
def scale(a, k):
    a = topoly(a)
    return ('P', tuple((m, rnd(c * k)) for m, c in a[1])) if k else ZERO

def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    r = [(a, e) for a, e in d.items() if e]
    if len(r) > 1: r.sort()
    return tuple(r)

MAXMONO = 64
def mul(a, b):
    a = topoly(a); b = topoly(b)
    if not a[1] or not b[1]: return ZERO
    if len(a[1]) * len(b[1]) > MAXMONO:
        a2, b2 = (a, b) if a[1] <= b[1] else (b, a)
        return atom(('mul', a2, b2))
    d = {}
    for m1, c1 in a[1]:
        for m2, c2 in b[1]:
            m = mmul(m1, m2)
            v = d.get(m, 0.0); n = v + c1 * c2
            if abs(n) <= 1e-11 * max(abs(v), abs(c1 * c2)): n = 0.0
            d[m] = rnd(n) if n else 0.0
    return mk(d)

def inv(b):
    b = topoly(b)
    if len(b[1]) == 1:
        m, c = b[1][0]
        return ('P', ((tuple((a, -e) for a, e in m), rnd(1.0 / c)),))
    # pull out the leading coefficient
    if not b[1]: return atom(('inv0',))
    c = b[1][0][1]
    return ('P', ((((A(('poly', scale(b, 1.0 / c))), -1),), rnd(1.0 / c)),))

def div(a, b):
    a = topoly(a); b = topoly(b)
    if len(b[1]) > 1 and len(a[1]) == len(b[1]) and all(x[0] == y[0] for x, y in zip(a[1], b[1])):
        k = a[1][0][1] / b[1][0][1]
        if all(abs(x[1] - k * y[1]) <= 1e-11 * abs(x[1]) for x, y in zip(a[1], b[1])): return const(k)
    return mul(a, inv(b))

def fabs(t):
    t = topoly(t)
    if is_const(t): return const(abs(cval(t)))
    # canonical sign + scale, |c*m| of single monomials splits into factors
    if len(t[1]) == 1:
        m, c = t[1][0]
        r = const(abs(c))
        rest = []
        for a, e in m:
            if e % 2 == 0: r = mul(r, ('P', ((((a, e),), 1.0),)))
            elif AT[a][0] in ('fabs', 'pos'): r = mul(r, ('P', ((((a, e),), 1.0),)))
            else: r = mul(r, ('P', ((((A(('fabs', ('P', ((((a, 1),), 1.0),)))), e),), 1.0),)))
        return r
    c = t[1][0][1]
    if c < 0: t = neg(t)
    return atom(('fabs', t))

def fn(name, *args):
    if name == 'fabs': return fabs(args[0])
    return atom(('fn', name) + tuple(args))

def ptr(base, off=ZERO):
    if not isinstance(base, int): base = A(base)
    return ('ptr', base, off)
def toptr(t):
    if t[0] == 'ptr': return t
    if t[0] == 'P':
        a = as_atom(t)
        if a is not None:
            if AT[a][0] == 'p2i': return ('ptr', AT[a][1], ZERO)
            return ('ptr', a, ZERO)
        # p2i atom inside?
        for m, c in t[1]:
            if c == 1.0 and len(m) == 1 and m[0][1] == 1 and AT[m[0][0]][0] == 'p2i':
                return ('ptr', AT[m[0][0]][1], sub(t, ('P', ((m, c),))))
    return ('ptr', A(('val', t)), ZERO)

# ---- booleans -------------------------------------------------------------
TRUE = ('B', 'c', True); FALSE = ('B', 'c', False)
def bnot(b):
    if b[1] == 'c': return FALSE if b[2] else TRUE
    if b[1] == 'not': return b[2]
    if b[1] == 'rel': 
        return ('B', 'rel', b[2], b[3], (b[5] if len(b) > 5 else 15) & ~b[4], b[5])
    if b[1] == 'and': return ('B', 'or', bnot(b[2]), bnot(b[3]))
    if b[1] == 'or': return ('B', 'and', bnot(b[2]), bnot(b[3]))
    return ('B', 'not', b)
def band(a, b):
    if a == FALSE or b == FALSE: return FALSE
    if a == TRUE: return b
    if b == TRUE: return a
    if a == b: return a
    return ('B', 'and', a, b)
def bor(a, b): return bnot(band(bnot(a), bnot(b)))
def tobool(t):
    if t[0] == 'B': return t
    if is_const(t): return TRUE if cval(t) else FALSE
    a = as_atom(t)
    if a is not None and AT[a][0] == 'B': return AT[a]
    return ('B', 'atom', t)

def rel(a, b, mask, full):
    """relation a ? b with outcome mask; full = 7 for integers, 15 for floats"""
    p = sub(a, b)
    if is_const(p):
        v = cval(p); o = LT if v < 0 else GT if v > 0 else EQ
        # identical terms compare equal unless NaN; treat as equal
        return TRUE if mask & o else FALSE
    k = 0.0
    items = []
    for m, c in p[1]:
        if m == (): k = c
        else: items.append((m, c))
    lead = items[0][1]
    s = 1.0 / lead
    var = ('P', tuple((m, rnd(c * s)) for m, c in items))
    kk = rnd(-k * s) if k else 0.0        # var ? kk
    if lead < 0: mask = (mask & (EQ | UN)) | (LT if mask & GT else 0) | (GT if mask & LT else 0)
    if len(items) == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        b = AT[items[0][0][0][0]]
        if b[0] == 'B':       # a truth value as a number
            t1, t0 = [bool(mask & (LT if v < kk else GT if v > kk else EQ)) for v in (1, 0)]
            return TRUE if t1 and t0 else b if t1 else bnot(b) if t0 else FALSE
    return ('B', 'rel', var, kk, mask, full)

# ---- traversal / substitution -----------------------------------------------
_SUBA = {}
def atoms_of_atom(a):
    r = _SUBA.get(a)
    if r is None:
        acc = set()
        for x in AT[a]:
            if isinstance(x, tuple): acc |= atoms(x)
            elif isinstance(x, int) and not isinstance(x, bool) and x < a and AT[a][0] in ('E', 'p2i', 'j', 'new', 'hv', 'call', 'ld'):
                pass
        # base pointer of memory atoms
        if AT[a][0] in ('E', 'p2i', 'hv', 'jm'):
            b = AT[a][1]
            acc.add(b); acc |= atoms_of_atom(b)
        r = _SUBA[a] = frozenset(acc)
    return r
def atoms(t):
    """all atoms (recursively) of a term"""
    acc = set()
    if not t: return acc
    if t[0] == 'P' and len(t) == 2:
        for m, c in t[1]:
            for a, e in m:
                acc.add(a); acc |= atoms_of_atom(a)
    elif t[0] == 'ptr':
        acc.add(t[1]); acc |= atoms_of_atom(t[1]); acc |= atoms(t[2])
    elif t[0] == 'B':
        for x in t[2:]:
            if isinstance(x, tuple): acc |= atoms(x)
    return acc

def subst(t, f, memo=None):
    """replace atoms: f(atom id) -> term or None"""
    if memo is None: memo = {}
    def A_(a):
        r = memo.get(a)
        if r is not None: return r
        r = f(a)
        if r is None:
            tt = AT[a]; ch = False; nt = []
            for i, x in enumerate(tt):
                if isinstance(x, tuple) and x and x[0] in ('P', 'ptr', 'B'):
                    y = T(x); ch |= y != x; nt.append(y)
                elif i == 1 and tt[0] in ('E', 'p2i'):
                    y = A_(x); b = toptr(y)
                    if tt[0] == 'E' and b[0] == 'ptr' and is_const(b[2]):
                        if b[1] != x or b[2] != ZERO: ch = True
                        nt.append(b[1]); 
                        if b[2] != ZERO: nt.append(('__off', int(cval(b[2]))))
                    else: nt.append(x)
                else: nt.append(x)
            if ch:
                offs = [y[1] for y in nt if isinstance(y, tuple) and y and y[0] == '__off']
                nt = [y for y in nt if not (isinstance(y, tuple) and y and y[0] == '__off')]
                if offs and tt[0] == 'E': nt[2] = nt[2] + offs[0]
                if tt[0] == 'fabs': r = fabs(nt[1])
                elif tt[0] == 'poly': r = topoly(nt[1])
                elif tt[0] == 'mul': r = mul(nt[1], nt[2])
                else: r = atom(tuple(nt))
            else: r = atom(a)
        memo[a] = r
        return r
    def T(t):
        if t[0] == 'P':
            r = ZERO
            for m, c in t[1]:
                x = const(c)
                for a, e in m:
                    v = A_(a)
                    if v[0] == 'ptr' and len(m) == 1 and e == 1 and c == 1 and len(t[1]) == 1: return v
                    for _ in range(abs(e)): x = mul(x, v) if e > 0 else div(x, v)
                r = add(r, x)
            return r
        if t[0] == 'ptr':
            b = toptr(A_(t[1]))
            return ('ptr', b[1], add(b[2], T(t[2])))
        if t[0] == 'B':
            if t[1] == 'c': return t
            if t[1] == 'rel': return rel(T(t[2]), const(t[3]), t[4], t[5])
            if t[1] == 'and': return band(T(t[2]), T(t[3]))
            if t[1] == 'or': return bor(T(t[2]), T(t[3]))
            if t[1] == 'not': return bnot(T(t[2]))
            return ('B', 'atom', T(t[2]))
        return t
    return T(t)

def show(t, nm=None):
    if t is None: return '?'
    if t[0] == 'P':
        if not t[1]: return '0'
        out = []
        for m, c in t[1]:
            f = '*'.join((showatom(a, nm) + ('' if e == 1 else '^%d' % e)) for a, e in m)
            cs = ('%g' % c)
            out.append(f if f and c == 1 else '-' + f if f and c == -1 else cs + ('*' + f if f else ''))
        return ' + '.join(out)
    if t[0] == 'ptr': return '&' + showatom(t[1], nm) + ('' if t[2] == ZERO else '+' + show(t[2], nm))
    if t[0] == 'B':
        if t[1] == 'c': return str(t[2])
        if t[1] == 'rel':
            n = {1: '<', 2: '==', 3: '<=', 4: '>', 5: '!=', 6: '>=', 12: '!<=', 9: '!>=', 10: '!<>', 13: '!='}.get(t[4], 'm%d' % t[4])
            return '(%s %s %g)' % (show(t[2], nm), n, t[3])
        if t[1] in ('and', 'or'): return '(%s %s %s)' % (show(t[2], nm), t[1], show(t[3], nm))
        return ('!' if t[1] == 'not' else '') + show(t[2], nm)
    return str(t)
def showatom(a, nm=None):
    if nm:
        r = nm(a)
        if r: return r
    a = AT[a]
    if a[0] == 'E': return '%s@%s' % (showatom(a[1], nm), a[2] if not isinstance(a[2], tuple) else show(a[2], nm))
    if a[0] == 'fabs': return '|%s|' % show(a[1], nm)
    if a[0] == 'fn': return '%s(%s)' % (a[1], ','.join(show(x, nm) for x in a[2:]))
    if a[0] == 'poly': return '(%s)' % show(a[1], nm)
    if a[0] == 'arg': return 'arg%s' % a[1]
    if a[0] == 'B': return show(a, nm)
    return '<' + ' '.join(show(x, nm) if isinstance(x, tuple) and x and x[0] in ('P','ptr','B') else str(x) for x in a) + '>'
