"""Forward abstract interpretation of one inlined function.

Abstract state = value numbers for SSA values and memory cells (terms over the values at entry, call results and
join/loop atoms), interval facts about value numbers, and a client typestate `ps`.  Joins merge value numbers that
differ into join atoms; states are kept apart only while their partition key differs (bounded), loops are widened at
their header.  Nothing is executed and no solver is involved: every test is a lookup in the fact table.
"""
import heapq
from .term import *
from . import term as T

INF = float('inf')
PURE = {'sqrt', 'exp', 'sinh', 'asinh', 'pow', 'log', 'log10', 'cosh', 'tanh', 'sin', 'cos', 'tan', 'atan', 'floor', 'ceil',
        'round', 'lround', 'llround', 'trunc', 'fmod', 'cbrt', 'expm1', 'log1p', 'fmin', 'fmax', 'fabs', 'abs', 'rint', 'nearbyint', 'hypot', 'atan2'}
DEAD_END = ('std::terminate', '__clang_call_terminate', 'abort', 'exit', '_Exit', 'quick_exit', '__assert_fail', 'std::abort', 'std::exit')

class Obj:
    __slots__ = ('cells', 'segs', 'var', 'bumps')
    def __init__(self): self.cells = {}; self.segs = (); self.var = {}; self.bumps = ()
    def clone(self):
        o = Obj(); o.cells = dict(self.cells); o.segs = self.segs; o.var = dict(self.var); o.bumps = self.bumps
        return o

class State:
    __slots__ = ('env', 'mem', 'facts', 'bf', 'ps', 'exc')      # exc: type of the error in flight, None if not known
    def __init__(self): self.env = {}; self.mem = {}; self.facts = {}; self.bf = {}; self.ps = (); self.exc = None
    def clone(self):
        s = State(); s.env = dict(self.env); s.mem = dict(self.mem); s.facts = dict(self.facts); s.bf = dict(self.bf); s.ps = self.ps; s.exc = self.exc
        return s
    def obj(self, base, w=False):
        o = self.mem.get(base)
        if o is None:
            if not w: return None
            o = Obj(); self.mem[base] = o
        elif w:
            o = o.clone(); self.mem[base] = o
        return o

def same(a, b):
    if a == b: return True
    if a is None or b is None: return False
    if a[0] == 'ptr' or b[0] == 'ptr': return toptr(a) == toptr(b)
    if a[0] != b[0]: return topoly(a) == topoly(b)
    return False

class Hooks:
    """client policy"""
    collect = True
    loads = False
    K = 12                              # disjuncts kept per block
    tracked = None                      # base atoms whose modified cells partition states
    def init(self, ai, st): pass
    def call(self, ai, st, I, callee, args): return None      # None = default; else list of (state, result term or None, 'ret'|'unw')
    def store(self, ai, st, base, off, size, val, I): pass
    def cls(self, base): return None
    def key(self, ai, st, blk): return None
    def enter(self, ai, st, src, blk): pass
    def leave(self, ai, st, src, blk): pass
    def exitkey(self, ai, st): return None
    def may_throw(self, ai, st, I, callee): return not nothrow(callee)
    def thrown(self, callee): return None
    def unwound(self, ai, st, I, callee): pass
    def split_select(self, I): return I['ty'] in ('i8', 'i32') 
    def havoc(self, ai, st, I, callee, args): return None   # None=default list of bases to havoc

import re
_NT = re.compile(r'operator<<|operator>>|std::(__cxx11::)?basic_(string|ostream|istream|ios|streambuf|filebuf|ofstream|ifstream|fstream)|std::ostream|std::istream|::~|operator new|'
                 r'operator delete|std::chrono|std::allocator|_M_realloc|_M_default_append|_M_fill_insert|_M_range_insert|_M_insert_aux|__throw_length_error|__throw_bad_alloc|'
                 r'__throw_bad_array|std::to_string|std::__cxx11|getFullID|std::char_traits|std::locale|std::ios_base|std::endl|std::flush|^llvm\.|std::filesystem|std::_Destroy|std::vector<.*>::(reserve|push_back|resize|insert|operator=)')
_pure = re.compile(r'slide::linInt|^slide::free::check|__cxa_|std::__throw|getFullID')
_ntc = {}
def nothrow(callee):
    """stream output, string handling and memory allocation are assumed not to fail"""
    r = _ntc.get(callee)
    if r is None: r = _ntc[callee] = bool(_NT.search(callee))
    return r

def readonly(callee):
    return callee.endswith(' const') or callee.endswith('#~')

_cpc = {}
def constparams(callee, n):
    """positions of arguments declared as reference or pointer to const"""
    k = (callee, n); r = _cpc.get(k)
    if r is None:
        c = callee[:-6] if callee.endswith(' const') else callee
        ps = []; r = frozenset()
        if c.endswith(')'):
            d = 0; e = len(c) - 1; i = e; 
            while i >= 0:
                x = c[i]
                if x in ')>' and not (x == '>' and c[i-1] == '-'): d += 1
                elif x in '(<': d -= 1
                if d == 0: break
                i -= 1
            a = c[i + 1:e]; d = 0; cur = ''
            for x in a:
                if x in '(<[{': d += 1
                elif x in ')>]}': d -= 1
                if x == ',' and d == 0: ps.append(cur.strip()); cur = ''
                else: cur += x
            if cur.strip(): ps.append(cur.strip())
            if len(ps) <= n: r = frozenset(n - len(ps) + j for j, p in enumerate(ps) if re.search(r' const[&*]$', p))
        _cpc[k] = r
    return r

_TID = {}
def typeid(n): return _TID.setdefault(n, 1000003 + len(_TID))
def fundamental(n): return n is not None and bool(re.match(r'_ZTI(PK)?[a-z]$', n))

class AI:
    def __init__(self, F, prog, hooks, trackthis=True, cls=None):
        self.F = F; self.prog = prog; self.h = hooks
        self.this = A(('arg', F.this)) if F.this is not None else None
        self.cls = cls
        self.exits = []
        self._exitkeys = {}
        self._ivl = {}
        self.nsteps = 0
        self.visited = set()
        self.capped = False
        self.blockin = {}
        self.obs = None; self.seeds = None

    # ---- memory ---------------------------------------------------------
    def default(self, base, off):
        k = AT[base][0]
        if k in ('alloca', 'new'): return atom(('undef', base, off))
        return atom(('E', base, off))

    def extent(self, base, off):
        c = self.h.cls(base) or (self.cls if base == self.this else None)
        if c:
            e = self.prog.extent(c, off)
            if e: return e
        return (-INF, INF)

    def span(self, st, base, offp, size):
        """bytes of an object an access at a symbolic offset can touch: the member it starts in, narrowed by what is known about the index"""
        k = int(dict(offp[1]).get((), 0.0))
        lo, hi = self.extent(base, k)
        a = b = float(k)
        for m, c in offp[1]:
            if m == (): continue
            x, y = self.ival(st, ('P', ((m, 1.0),)))
            if c < 0: x, y = y, x
            a += c * x; b += c * y
        b += size or 8
        if a != a or b != b: return lo, hi
        if a > lo and a < hi: lo = a
        if b < hi and b > lo: hi = b
        return lo, hi

    def seglookup(self, segs, base, off, n=None):
        for i in range(len(segs) - 1 if n is None else n - 1, -1, -1):
            lo, hi, k = segs[i]
            if lo <= off < hi:
                if k[0] == 'cp':      # copy of [srcbase, off+delta) using that object's segs at the time
                    return self.seglookup(k[3], k[1], off + k[2])
                if k[0] == 'zero': return ZERO
                return atom((k[0], base, off) + tuple(k[1:]))
        return self.default(base, off)

    def read(self, st, base, off):
        o = st.mem.get(base)
        if o is None: return self.default(base, off)
        c = o.cells.get(off)
        if c is not None: return c[0]
        return self.seglookup(o.segs, base, off)

    def load(self, st, p, size, I):
        base, offp = p[1], p[2]
        if is_const(offp):
            off = int(cval(offp))
            o = st.mem.get(base)
            if o is not None:
                c = o.cells.get(off)
                if c is not None:
                    if c[1] == size: return c[0]
                    if size < c[1] and size: return atom(('part', off, c[0], size))
                for oo, (t, s) in o.cells.items():
                    if oo < off + size and off < oo + s and oo != off: return atom(('ldx', base, off, I['id']))
                return self.seglookup(o.segs, base, off)
            return self.default(base, off)
        o = st.mem.get(base)
        lo, hi = self.span(st, base, offp, size)
        if o is not None:
            c = o.var.get(offp)
            if c is not None: return c[0]
            tags = tuple(t for (l, h, t) in o.bumps if l < hi and lo < h)
            # array completely described by one copy segment with no later writes
            if not any(lo <= x < hi for x in o.cells):
                sg = [s for s in o.segs if s[0] < hi and lo < s[1]]
                if len(sg) == 1 and sg[0][0] <= lo and hi <= sg[0][1] and sg[0][2][0] == 'cp' and not tags:
                    kk = sg[0][2]
                    if not kk[3]: return atom(('ld', kk[1], add(offp, const(kk[2])), ()))
            else:
                tags = tags + (('cells', tuple(sorted((x, c[0]) for x, c in o.cells.items() if lo <= x < hi))),)
            sg = tuple(s for s in o.segs if s[0] < hi and lo < s[1])
            if sg: tags = tags + (('segs', sg),)
            return atom(('ld', base, offp, tags))
        return atom(('ld', base, offp, ()))

    def kill(self, o, lo, hi):
        for x in [x for x, (t, s) in o.cells.items() if x < hi and lo < x + s]: del o.cells[x]

    def store(self, st, p, val, size, I):
        base, offp = p[1], p[2]
        o = st.obj(base, True)
        if is_const(offp):
            off = int(cval(offp))
            self.kill(o, off, off + size)
            o.cells[off] = (val, size)
            if o.var:
                lo, hi = self.extent(base, off)
                for q in list(o.var):
                    l2, h2 = self.extent(base, int(dict(q[1]).get((), 0.0)))
                    if l2 < hi and lo < h2: del o.var[q]
            self.h.store(self, st, base, off, size, val, I)
        else:
            lo, hi = self.span(st, base, offp, size)
            self.kill(o, lo, hi)
            for q in list(o.var):
                l2, h2 = self.extent(base, int(dict(q[1]).get((), 0.0)))
                if not (l2 < hi and lo < h2): continue
                d = sub(q, offp)
                if is_const(d) and abs(cval(d)) >= size: continue
                del o.var[q]
            self.addseg(o, lo, hi, ('hv', ('st', I['id'])))
            o.bumps = tuple(b for b in o.bumps if b != (lo, hi, I['id'])) + ((lo, hi, I['id']),)
            o.var[offp] = (val, size)
            self.h.store(self, st, base, offp, size, val, I)

    def addseg(self, o, lo, hi, k):
        # remove segments fully covered
        o.segs = tuple(s for s in o.segs if not (lo <= s[0] and s[1] <= hi)) + ((lo, hi, k),)

    def havoc(self, st, base, tag, lo=-INF, hi=INF):
        o = st.obj(base, True)
        self.kill(o, lo, hi)
        o.var = {q: v for q, v in o.var.items() if False}
        self.addseg(o, lo, hi, ('hv', tag))
        o.bumps = tuple(b for b in o.bumps if b != (lo, hi, tag)) + ((lo, hi, tag),)

    def copy(self, st, d, s, n, I):
        """memcpy of a constant number of bytes between constant offsets"""
        sb, so = s[1], s[2]; db, do = d[1], d[2]
        if n is None or not is_const(so) or not is_const(do):
            if is_const(do) or True:
                k = int(dict(do[1]).get((), 0.0)) if do[0] == 'P' else 0
                lo, hi = self.extent(db, k)
                if n is not None and is_const(do): lo, hi = k, k + n
                self.havoc(st, db, ('cp', I['id']), lo, hi)
            return
        so = int(cval(so)); do = int(cval(do)); n = int(n)
        src = st.mem.get(sb)
        cells = {} if src is None else {x: c for x, c in src.cells.items() if so <= x < so + n}
        segs = () if src is None else tuple(x for x in src.segs if x[0] < so + n and so < x[1])
        o = st.obj(db, True)
        self.kill(o, do, do + n)
        # partially overlapping previous segment stays underneath
        o.segs = tuple(x for x in o.segs if not (do <= x[0] and x[1] <= do + n))
        if sb == db and so == do: pass
        simple = True
        # restoring a copy of ourselves: collapse to entry values
        o.segs = o.segs + ((do, do + n, ('cp', sb, so - do, segs)),)
        for x, c in cells.items(): o.cells[x - so + do] = c
        o.bumps = o.bumps + (((do, do + n, ('cp', I['id'])),) if (do, do + n, ('cp', I['id'])) not in o.bumps else ())
        o.var = {}
        self.norm(o, db)
        self.h.store(self, st, db, do, n, None, I)

    def norm(self, o, base):
        """drop leading copy segments that only restore entry values of the same object"""
        out = []
        for (lo, hi, k) in o.segs:
            if k[0] == 'cp':
                b, dlt, sg = k[1], k[2], k[3]
                # resolve chain of full-cover copies
                while sg and sg[-1][0] <= lo + dlt and hi + dlt <= sg[-1][1] and sg[-1][2][0] == 'cp':
                    kk = sg[-1][2]; b, dlt, sg = kk[1], dlt + kk[2], kk[3]
                if sg and sg[-1][0] <= lo + dlt and hi + dlt <= sg[-1][1]: 
                    out.append((lo, hi, ('cp', b, dlt, sg))); continue
                if b == base and dlt == 0 and not sg:
                    # identity: entry values; removes everything underneath in range
                    out = [s for s in out if not (lo <= s[0] and s[1] <= hi)]
                    if any(s[0] < hi and lo < s[1] for s in out): out.append((lo, hi, ('cp', b, dlt, sg)))
                    continue
                k = ('cp', b, dlt, sg)
            out.append((lo, hi, k))
        o.segs = tuple(out)

    def changed(self, st, base):
        """offsets (or ranges) of an object whose value is not its entry value"""
        o = st.mem.get(base); r = []
        if o is None: return r
        for x, (t, s) in o.cells.items():
            if not same(t, self.default(base, x)): r.append((x, x + s, t))
        for i, (lo, hi, k) in enumerate(o.segs):
            if k[0] == 'cp' and k[1] == base and k[2] == 0 and not k[3]: continue
            # covered later?
            if any(l <= lo and hi <= h for (l, h, kk) in o.segs[i + 1:]): continue
            # completely overwritten by cells?
            cov = [(x, x + s) for x, (t, s) in o.cells.items() if lo <= x < hi]
            if hi - lo < 4096 and hi - lo != INF:
                p = lo
                for a, b in sorted(cov):
                    if a <= p: p = max(p, b)
                if p >= hi: continue
            r.append((lo, hi, k))
        return r

    # ---- facts -----------------------------------------------------------
    def dom(self, st, var, full):
        f = st.facts.get(var)
        if f is None: return (-INF, True, INF, True, full == 15, frozenset())
        return f

    def query(self, st, b):
        """True / False / None"""
        if b[1] == 'c': return b[2]
        if b[1] == 'rel':
            var, k, mask, full = b[2:6]
            lo, lop, hi, hop, nan, neq = self.dom(st, var, full)
            poss = 0
            if lo < k: poss |= LT
            if hi > k: poss |= GT
            if (lo < k or (lo == k and not lop)) and (hi > k or (hi == k and not hop)) and k not in neq: poss |= EQ
            if nan: poss |= UN
            if poss & ~mask == 0: return True
            if poss & mask == 0: return False
            return None
        if b[1] == 'not':
            q = self.query(st, b[2]); return None if q is None else not q
        if b[1] == 'and':
            x, y = self.query(st, b[2]), self.query(st, b[3])
            if x is False or y is False: return False
            if x and y: return True
            return self.bfact(st, b)
        if b[1] == 'or':
            x, y = self.query(st, b[2]), self.query(st, b[3])
            if x or y: return True
            if x is False and y is False: return False
            return self.bfact(st, b)
        if b[1] == 'atom':
            if b in st.bf: return st.bf[b]
            t = b[2]
            if is_const(t): return bool(cval(t))
        return None

    def bfact(self, st, b):
        if not st.bf: return None
        v = st.bf.get(b)
        if v is None:
            v = st.bf.get(bnot(b))
            if v is not None: v = not v
        return v

    def assume(self, st, b, val):
        """list of states in which b == val"""
        q = self.query(st, b)
        if q is not None: return [st] if q == val else []
        if b[1] == 'not': return self.assume(st, b[2], not val)
        if b[1] == 'rel':
            var, k, mask, full = b[2:6]
            if not val: mask = full & ~mask
            lo, lop, hi, hop, nan, neq = self.dom(st, var, full)
            integer = full == 7
            nan = nan and bool(mask & UN)
            m = mask & 7
            if m == 0: lo, hi, lop, hop = INF, -INF, True, True
            elif m == LT:
                if k < hi or (k == hi and not hop): hi, hop = k, True
            elif m == (LT | EQ):
                if k < hi: hi, hop = k, False
            elif m == GT:
                if k > lo or (k == lo and not lop): lo, lop = k, True
            elif m == (GT | EQ):
                if k > lo: lo, lop = k, False
            elif m == EQ: lo = hi = k; lop = hop = False
            elif m == (LT | GT):
                if lo == k: lop = True
                elif hi == k: hop = True
                else: neq = neq | {k}
            if integer:
                one = True
                # integral variable (coefficient 1 atoms): close open bounds
                if lop and lo not in (-INF, INF): lo, lop = math_floor(lo) + 1, False
                if hop and hi not in (-INF, INF): hi, hop = math_ceil(hi) - 1, False
                while lo in neq: lo += 1
                while hi in neq: hi -= 1
            if (lo > hi or (lo == hi and (lop or hop))) and not nan: return []
            s = st.clone(); s.facts[var] = (lo, lop, hi, hop, nan, neq)
            return [s]
        if b[1] in ('and', 'or'):
            x, y, v = (b[2], b[3], val) if b[1] == 'and' else (bnot(b[2]), bnot(b[3]), not val)
            r = []
            if v:
                for s in self.assume(st, x, True): r += self.assume(s, y, True)
            else:
                r += self.assume(st, x, False)
                for s in self.assume(st, x, True): r += self.assume(s, y, False)
                r2 = []
                for s in r:      # the compound fact survives the joining of its cases
                    s = s.clone(); s.bf[b] = val; r2.append(s)
                r = r2
            return r
        s = st.clone(); s.bf[b] = val
        return [s]

    # ---- evaluation -------------------------------------------------------
    def val(self, st, v):
        k = v[0]
        if k == 'v':
            t = st.env.get(v[1])
            return t if t is not None else atom(('ssa', v[1]))
        if k == 'i': return const(v[1]) if v[1] != 'big' else atom(('big',))
        if k == 'f': return const(float(v[1]))
        if k == 's': return atom(('spec', v[1]))
        if k == 'n': return ZERO
        if k == 'u': return atom(('undefv',))
        if k == 'g' or k == 'fn': return ptr(('glob', v[1]))
        if k == 'gep':
            b = toptr(self.val(st, v[1])); return ('ptr', b[1], add(b[2], const(v[2])))
        return atom(('cst', str(v)))

    def cmpptr(self, a, b, I):
        pa, pb = a, b
        if a[0] == 'ptr' or b[0] == 'ptr':
            za = a[0] != 'ptr' and is_const(a); zb = b[0] != 'ptr' and is_const(b)
            if za or zb:
                p = b if za else a
                if AT[p[1]][0] in ('alloca', 'new', 'glob') or p[1] == self.this or (p[2] != ZERO and AT[p[1]][0] != 'phi'): return 'nonnull'
                return (topoly(p), ZERO)
            if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]: return (a[2], b[2])
        return (topoly(a), topoly(b))

    def evalop(self, st, I):
        op = I['op']; ops = I.get('ops', [])
        V = lambda i: self.val(st, ops[i])
        isb = I['ty'] == 'i1'
        if op in ('fadd', 'add'): return add(V(0), V(1)) if not isb else bxor(tobool(V(0)), tobool(V(1)))
        if op in ('fsub', 'sub'):
            a, b = V(0), V(1)
            if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]: return sub(a[2], b[2])
            return sub(a, b)
        if op == 'fneg': return neg(V(0))
        if op in ('fmul', 'mul'): return mul(V(0), V(1))
        if op == 'fdiv': return div(V(0), V(1))
        if op in ('sdiv', 'udiv', 'ashr', 'lshr'):
            a, b = topoly(V(0)), V(1)
            if is_const(b):
                k = cval(b)
                if op in ('ashr', 'lshr'): k = 2.0 ** k
                if k and all(c % k == 0 for m, c in a[1]): return scale(a, 1.0 / k)
                if k and any(AT[x][0] == 'p2i' for x in T.atoms(a)): return scale(a, 1.0 / k)
            return fn(op, a, topoly(b))
        if op in ('shl',):
            b = V(1)
            if is_const(b): return scale(V(0), 2.0 ** cval(b))
            return fn(op, topoly(V(0)), topoly(b))
        if op in ('srem', 'urem', 'frem'):
            a, b = topoly(V(0)), topoly(V(1))
            if is_const(a) and is_const(b) and cval(b): 
                import math
                return const(math.fmod(cval(a), cval(b)))
            return fn(op, a, b)
        if op in ('and', 'or', 'xor'):
            a, b = V(0), V(1)
            if isb:
                a, b = tobool(a), tobool(b)
                return band(a, b) if op == 'and' else bor(a, b) if op == 'or' else bxor(a, b)
            if is_const(a) and is_const(b):
                x, y = int(cval(a)), int(cval(b))
                return const(x & y if op == 'and' else x | y if op == 'or' else x ^ y)
            a, b = topoly(a), topoly(b)
            if op == 'and' and is_const(b) and cval(b) == 1 and as_atom(a) is not None and AT[as_atom(a)][0] == 'B': return a
            if a[1] > b[1]: a, b = b, a
            if op == 'xor' and is_const(a) and cval(a) == -1 or op == 'xor' and is_const(b) and cval(b) == -1:
                return sub(const(-1), b if is_const(a) else a)   # bitwise complement
            return fn(op, a, b)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            t = V(0)
            if isb: return tobool(t)
            if op == 'sext' and t[0] == 'B': return neg(topoly(t))
            if op == 'zext' or op == 'trunc': return topoly(t)
            if op == 'ptrtoint': return topoly(t)
            if op == 'inttoptr': return toptr(t)
            return t
        if op in ('sitofp', 'uitofp'): return topoly(V(0))
        if op == 'fpext' : return V(0)
        if op == 'fptrunc': return fn('fptrunc', topoly(V(0)))
        if op in ('fptosi', 'fptoui'):
            a = topoly(V(0))
            if is_const(a): return const(int(cval(a)))
            return fn('trunc', a)
        if op == 'icmp':
            a, b = V(0), V(1); p = I['pred']
            if a[0] == 'ptr' or b[0] == 'ptr':
                r = self.cmpptr(a, b, I)
                if r == 'nonnull':
                    if p == 'eq': return FALSE
                    if p == 'ne': return TRUE
                    r = (topoly(a), topoly(b))
                a, b = r
            if a[0] == 'B' or b[0] == 'B':
                aa, bb = (a, b) if a[0] == 'B' else (b, a)
                if bb[0] == 'B':
                    if p in ('eq', 'ne'):
                        x = bxor(aa, bb); return x if p == 'ne' else bnot(x)
                elif is_const(bb) and p in ('eq', 'ne'):
                    v = bool(cval(bb)); return aa if v == (p == 'eq') else bnot(aa)
            a, b = topoly(a), topoly(b)
            # bool held in an integer
            x = as_atom(a)
            if x is not None and AT[x][0] == 'B' and is_const(b) and p in ('eq', 'ne'):
                return AT[x] if (cval(b) != 0) == (p == 'eq') else bnot(AT[x])
            M = {'eq': EQ, 'ne': LT | GT, 'slt': LT, 'sle': LT | EQ, 'sgt': GT, 'sge': GT | EQ, 'ult': LT, 'ule': LT | EQ, 'ugt': GT, 'uge': GT | EQ}
            if p[0] == 'u' and is_const(b) and not is_const(a):
                k = cval(b)
                if k < 0: k += 2.0 ** (64 if self.F and I.get('w') == 64 else 64)
                inside = {'ult': k, 'ule': k + 1, 'ugt': k + 1, 'uge': k}[p]
                if inside < 2.0 ** 31:
                    t = band(rel(a, ZERO, GT | EQ, 7), rel(a, const(inside), LT, 7))
                    if p in ('ugt', 'uge'):
                        if inside == 1: return rel(a, ZERO, LT | GT, 7)
                        t = bnot(t)
                    elif inside == 1: return rel(a, ZERO, EQ, 7)
                    return t
            return rel(a, b, M[p], 7)
        if op == 'fcmp':
            a, b = topoly(V(0)), topoly(V(1)); p = I['pred']
            m = {'oeq': EQ, 'ogt': GT, 'oge': GT | EQ, 'olt': LT, 'ole': LT | EQ, 'one': LT | GT, 'ord': 7, 'uno': 8, 'ueq': EQ | UN, 'ugt': GT | UN,
                 'uge': GT | EQ | UN, 'ult': LT | UN, 'ule': LT | EQ | UN, 'une': LT | GT | UN, 'true': 15, 'false': 0}[p]
            if p in ('ord', 'uno'):
                r = None
                for t in ({a, b}):
                    if is_const(t): continue
                    x = ('B', 'rel') + rel(t, ZERO, m, 15)[2:]
                    r = x if r is None else (band(r, x) if p == 'ord' else bor(r, x))
                return r if r is not None else (TRUE if p == 'ord' else FALSE)
            return rel(a, b, m, 15)
        if op == 'getelementptr':
            if 'base' not in I: return atom(('gep', I['id']))
            b = toptr(self.val(st, I['base']))
            o = add(b[2], const(I['off']))
            for v, k in I.get('var', []): o = add(o, scale(topoly(self.val(st, v)), float(k)))
            return ('ptr', b[1], o)
        if op == 'select':
            c = tobool(V(0)); a, b = V(1), V(2)
            q = self.query(st, c)
            if q is not None: return a if q else b
            if isb:
                a, b = tobool(a), tobool(b)
                if a == b: return a
                if b == FALSE: return band(c, a)
                if a == TRUE: return bor(c, b)
                if b == TRUE: return bor(bnot(c), a)
                if a == FALSE: return band(bnot(c), b)
                return bor(band(c, a), band(bnot(c), b))
            if same(a, b): return a
            if a[0] == 'P' and b[0] == 'P':
                mm = minmax(c, a, b)
                if mm is not None: return mm
            return atom(('sel', c, a, b))
        if op == 'extractvalue':
            t = V(0); ix = tuple(I['idx'])
            if ix == (1,) and fundamental(st.exc):
                w = as_atom(t) if t[0] == 'P' else None
                if w is not None and AT[w][0] == 'lp' or self.padval(I['ops'][0]): return const(typeid(st.exc))
            if t[0] == 'agg':
                d = dict(t[1])
                if ix in d: return d[ix]
            return atom(('ev', T.A(('w', t)) if t[0] != 'P' else (as_atom(t) if as_atom(t) is not None else 0)) + ix)
        if op == 'insertvalue':
            t = V(0); d = dict(t[1]) if t[0] == 'agg' else {}
            d[tuple(I['idx'])] = V(1)
            return ('agg', tuple(sorted(d.items())))
        if op == 'landingpad': return atom(('lp', I['id']))
        if op == 'alloca': return ptr(('alloca', I['id']))
        return atom(('op', op, I['id']))

    def padval(self, v, seen=None):
        """is the value always that of a landing pad?"""
        seen = set() if seen is None else seen
        if v[0] != 'v' or v[1] not in self.F.ins: return False
        if v[1] in seen: return True
        seen.add(v[1]); I = self.F.ins[v[1]]
        op = I['op']
        if op == 'landingpad': return True
        if op == 'phi': return all(self.padval(x, seen) for x, b in I['in'])
        # taken apart and put together again: only the selector part matters
        if op == 'insertvalue': return self.padval(I['ops'][1], seen) if list(I['idx']) == [1] else self.padval(I['ops'][0], seen)
        if op == 'extractvalue': return list(I['idx']) == [1] and self.padval(I['ops'][0], seen)
        return False

    # ---- calls -----------------------------------------------------------
    def intrinsic(self, st, I, callee, args):
        n = callee
        if n.startswith('llvm.'):
            b = n.split('.')[1]
            if b == 'fabs': return fabs(args[0])
            if b in ('fmuladd', 'fma'): return add(mul(args[0], args[1]), args[2])
            if b in ('smax', 'umax', 'smin', 'umin', 'maxnum', 'minnum', 'maximum', 'minimum'):
                a, c = topoly(args[0]), topoly(args[1])
                if a[1] > c[1]: a, c = c, a
                return fn('max' if 'max' in b else 'min', a, c)
            if b == 'abs': return fabs(args[0])
            if b in ('memcpy', 'memmove'):
                n_ = cval(topoly(args[2])) if is_const(topoly(args[2])) else None
                self.copy(st, toptr(args[0]), toptr(args[1]), n_, I); return ZERO
            if b == 'memset':
                p = toptr(args[0]); nn = topoly(args[2])
                if is_const(p[2]) and is_const(nn):
                    o = st.obj(p[1], True); lo = int(cval(p[2])); hi = lo + int(cval(nn))
                    self.kill(o, lo, hi)
                    self.addseg(o, lo, hi, ('zero',) if is_const(args[1]) and cval(args[1]) == 0 else ('hv', ('ms', I['id'])))
                    self.h.store(self, st, p[1], lo, hi - lo, None, I)
                else: self.havoc(st, p[1], ('ms', I['id']))
                return ZERO
            if n.startswith('llvm.eh.typeid.for') and args[0][0] == 'ptr' and AT[args[0][1]][0] == 'glob': return const(typeid(AT[args[0][1]][1]))
            if b in ('dbg', 'lifetime', 'assume', 'experimental', 'donothing', 'trap', 'stacksave', 'stackrestore', 'invariant', 'prefetch', 'var'): return ZERO
            if b == 'is': return ('B', 'atom', atom(('fn', 'isfpclass') + tuple(topoly(a) for a in args)))
            if b in ('floor', 'ceil', 'trunc', 'round', 'rint', 'sqrt', 'exp', 'log', 'pow', 'sin', 'cos', 'exp2', 'log2', 'log10', 'copysign', 'llround', 'lround', 'powi'):
                return fn(b, *[topoly(a) for a in args])
            return None
        if n in PURE: return fn({'fmin': 'min', 'fmax': 'max', 'abs': 'fabs'}.get(n, n), *[topoly(a) for a in args])
        if n in ('_Znwm', '_Znam', '__cxa_allocate_exception', '_ZnwmSt11align_val_t'): return ptr(('new', I['id']))
        if n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '__cxa_free_exception', '__cxa_end_catch', '__cxa_guard_release', '__cxa_guard_abort', '_ZdaPvm', '_ZdlPvSt11align_val_t', 'free'): return ZERO
        if n == '__cxa_begin_catch': return atom(('exc', I['id']))
        return None

    def do_call(self, st, I, work):
        """returns list of (state, kind) with kind 'ret'|'unw'"""
        callee = I.get('dem') or '?'; sym = I.get('callee') or ''
        args = [self.val(st, v) for v in I['args']]
        inv = I['op'] == 'invoke'
        r = self.h.call(self, st, I, callee, args)
        if r is None:
            t = self.intrinsic(st, I, sym, args)
            if t is not None:
                if I['ty'] != 'void': st.env[I['id']] = t
                return [(st, 'ret')]
            if callee.startswith(DEAD_END) or sym.startswith(DEAD_END): return []
            hv = self.h.havoc(self, st, I, callee, args)
            if hv is None:
                hv = []
                if _pure.search(callee): pass
                elif nothrow(callee):
                    hv = [a[1] for a in args[:1] if a[0] == 'ptr' and AT[a[1]][0] in ('alloca', 'new')]
                elif not I.get('ro'):
                    cp = constparams(callee, len(args))
                    for k, a in enumerate(args):
                        if k == 0 and readonly(callee) or k in cp: continue
                        if a[0] == 'ptr': hv.append(a[1])
            for b in hv:
                if AT[b][0] != 'glob': self.havoc(st, b, ('call', I['id']))
            if I['ty'] != 'void': st.env[I['id']] = atom(('call', I['id'], callee)) if I['ty'] != 'ptr' else ptr(('call', I['id'], callee))
            if I['ty'] == 'i1': st.env[I['id']] = tobool(st.env[I['id']])
            if sym == '__cxa_throw': st.exc = AT[args[1][1]][1] if len(args) > 1 and args[1][0] == 'ptr' and AT[args[1][1]][0] == 'glob' else None
            if sym in ('__cxa_throw', '__cxa_rethrow', '_Unwind_Resume') :
                if sym != '_Unwind_Resume': self.h.unwound(self, st, I, callee)
                return [(st, 'unw')]
            if callee.startswith('std::__throw') and nothrow(callee): return []
            if callee.startswith('std::__throw') or I.get('noreturn'): st.exc = 'std'; self.h.unwound(self, st, I, callee); return [(st, 'unw')]
            res = [(st, 'ret')]
            if not I.get('nounwind') and self.h.may_throw(self, st, I, callee):
                u = st.clone(); u.exc = self.h.thrown(callee); self.h.unwound(self, u, I, callee); res.append((u, 'unw'))
            return res
        out = []
        for s, t, k in r:
            if k == 'ret' and I['ty'] != 'void': s.env[I['id']] = t if t is not None else atom(('call', I['id'], callee))
            out.append((s, k))
        return out

    # ---- driver ------------------------------------------------------------
    def exit(self, kind, st, I, val=None):
        k = (kind, I['id'], st.ps, st.exc if kind == 'throw' else None, val, self.h.exitkey(self, st), frozenset((b, repr(sorted(self.changed(st, b), key=repr))) for b in self.trackset()))
        k2 = self._exitkeys.get(k)
        if k2 is None:
            self._exitkeys[k] = len(self.exits); self.exits.append({'kind': kind, 'st': st, 'I': I, 'val': val})
        elif kind == 'ret' and val is not None:
            # keep both if facts on the returned value differ
            o = self.exits[k2]['st']
            if o.facts != st.facts or o.bf != st.bf: self.exits.append({'kind': kind, 'st': st, 'I': I, 'val': val})

    def trackset(self):
        t = self.h.tracked
        return t if t is not None else (self.this,) if self.this is not None else ()

    def key(self, st, blk):
        ph = []
        for I in self.F.blocks[blk]:
            if I['op'] != 'phi': break
            if I['ty'] in ('i8', 'i32', 'i1'):
                t = st.env.get(I['id'])
                if t is not None and (t in (TRUE, FALSE) or is_const(t)) and blk not in self.F.loops: ph.append(t)
                elif t is not None and blk not in self.F.loops and I['ty'] == 'i8': ph.append(t)
                else: ph.append(None)
        if blk not in self.F.loops:
            for i in self.liveconst(blk):
                t = st.env.get(i)
                if t is not None and (is_const(t) or t[0] == 'B' and t[1] == 'c'): ph.append((i, t))
        ch = tuple(sorted((b, x[0], x[1], cval(x[2]) if x[1] - x[0] == 1 and is_const(x[2]) else -1) for b in self.trackset() for x in self.changed(st, b)))
        return (st.ps, tuple(ph), ch, self.h.key(self, st, blk), st.exc)

    def merge(self, a, b, blk):
        """join; returns merged state (a is the accumulated one) """
        s = State(); s.ps = a.ps if a.ps == b.ps else self.h.joinps(a.ps, b.ps); s.exc = a.exc if a.exc == b.exc else None
        for k, t in a.env.items():
            u = b.env.get(k)
            if u is None: continue
            if t == u or same(t, u): s.env[k] = t
            else:
                ty = self.F.ins[k]['ty'] if k in self.F.ins else ''
                at = A(('j', blk, k))
                s.env[k] = ('ptr', at, ZERO) if ty == 'ptr' else tobool(atom(at)) if ty == 'i1' else atom(at)
        for base in set(a.mem) | set(b.mem):
            oa, ob = a.mem.get(base), b.mem.get(base)
            if oa is ob: s.mem[base] = oa; continue
            ea, eb = oa or Obj(), ob or Obj()
            o = Obj()
            if ea.segs == eb.segs: o.segs = ea.segs; jr = []
            else:
                # common prefix, then joined ranges for the rest
                n = 0
                while n < len(ea.segs) and n < len(eb.segs) and ea.segs[n] == eb.segs[n]: n += 1
                o.segs = ea.segs[:n]
                jr = []
                for sg in ea.segs[n:] + eb.segs[n:]:
                    jr.append((sg[0], sg[1]))
                for lo, hi in sorted(set(jr)): self.addseg(o, lo, hi, ('jm', blk))
            for x in set(ea.cells) | set(eb.cells):
                ca, cb = ea.cells.get(x), eb.cells.get(x)
                sz = (ca or cb)[1]
                if ca and cb and ca[1] != cb[1]: sz = max(ca[1], cb[1]); o.cells[x] = (atom(('jm', base, x, blk)), sz); continue
                va = ca[0] if ca else self.seglookup(ea.segs, base, x); vb = cb[0] if cb else self.seglookup(eb.segs, base, x)
                if same(va, vb): o.cells[x] = (va, sz)
                else: o.cells[x] = (atom(('jm', base, x, blk)), sz)
            for q in ea.var:
                if q in eb.var and same(ea.var[q][0], eb.var[q][0]): o.var[q] = ea.var[q]
            o.bumps = ea.bumps if ea.bumps == eb.bumps else tuple(sorted(set(ea.bumps) | set(eb.bumps), key=repr))
            s.mem[base] = o
        for v, fa in a.facts.items():
            fb = b.facts.get(v)
            if fb is None: continue
            if fa == fb: s.facts[v] = fa; continue
            lo, lop = min((fa[0], fa[1]), (fb[0], fb[1])); hi, nhop = max((fa[2], not fa[3]), (fb[2], not fb[3]))
            if blk in self.F.loops:   # widen
                if lo != fa[0]: lo, lop = -INF, True
                if hi != fa[2]: hi, nhop = INF, False
            s.facts[v] = (lo, lop, hi, not nhop, fa[4] or fb[4], fa[5] & fb[5])
        for k, v in a.bf.items():
            if b.bf.get(k) == v: s.bf[k] = v
        return s

    def equal(self, a, b):
        if a.ps != b.ps or a.exc != b.exc or a.facts != b.facts or a.bf != b.bf or a.env != b.env: return False
        if set(a.mem) != set(b.mem): return False
        for k in a.mem:
            x, y = a.mem[k], b.mem[k]
            if x is y: continue
            if x.cells != y.cells or x.segs != y.segs or x.var != y.var or x.bumps != y.bumps: return False
        return True

    def inloop(self, at, L, memo):
        r = memo.get(at)
        if r is not None: return r
        memo[at] = False
        t = AT[at]; k = t[0]
        r = False
        if k in ('call', 'op', 'ldx', 'lp', 'new', 'exc', 'gep'):
            iid = t[3] if k == 'ldx' else t[2] if k == 'op' else t[1]
            r = self.F.blk.get(iid) in L['body']
        elif k == 'j': r = t[1] in L['body']
        elif k == 'jm': r = t[3] in L['body']
        elif k == 'hv':
            g = t[3]; r = isinstance(g, tuple) and self.F.blk.get(g[1]) in L['body']
        elif k == 'alloca': r = False
        if not r: r = any(self.inloop(x, L, memo) for x in atoms_of_atom(at))
        memo[at] = r
        return r

    def backedge(self, st, L, memo):
        """forget what only held in the previous iteration"""
        h = L['header']; F = self.F
        hp = {I['id'] for I in F.blocks[h] if I['op'] == 'phi'}
        for k in list(st.env):
            b = F.blk.get(k)
            if b in L['body'] and k not in hp: del st.env[k]
        bad = lambda t: any(self.inloop(x, L, memo) for x in atoms(t))
        for k in hp:
            t = st.env.get(k)
            if t is not None and bad(t):
                ty = F.ins[k]['ty']; at = A(('j', h, k))
                st.env[k] = ('ptr', at, ZERO) if ty == 'ptr' else tobool(atom(at)) if ty == 'i1' else atom(at)
        for base in list(st.mem):
            if self.inloop(base, L, memo) and AT[base][0] != 'alloca':
                del st.mem[base]; continue
            o = st.mem[base]; o2 = None
            for x, (t, s) in o.cells.items():
                if bad(t):
                    jt = atom(('jm', base, x, h))
                    if t != jt:
                        if o2 is None: o2 = o.clone()
                        o2.cells[x] = (jt, s)
            for q, (t, s) in o.var.items():
                if bad(t) or bad(q):
                    if o2 is None: o2 = o.clone()
                    o2.var.pop(q, None)
            if o2 is not None: st.mem[base] = o2
        for v in list(st.facts):
            if bad(v): del st.facts[v]
        for v in list(st.bf):
            if bad(v): del st.bf[v]

    def learn(self):
        """which header phis and memory cells each loop carries, with the facts that hold at its header"""
        seeds = {}
        for h in self.F.loops:
            sts = list(self.inst[h].values())
            ph = set(); mem = {}
            hp = {I['id'] for I in self.F.blocks[h] if I['op'] == 'phi'}
            for st in sts:
                for k in hp:
                    t = st.env.get(k)
                    if t is None: continue
                    a = t[1] if t[0] == 'ptr' and t[2] == ZERO else as_atom(topoly(t)) if t[0] == 'P' else as_atom(t[2]) if t[0] == 'B' and t[1] == 'atom' else None
                    if a is not None and AT[a] == ('j', h, k): ph.add(k)
                for base, o in st.mem.items():
                    for x, (t, sz) in o.cells.items():
                        a = as_atom(t) if t[0] == 'P' else None
                        if a is not None and AT[a] == ('jm', base, x, h): mem[(base, x)] = sz
            own = {A(('j', h, k)) for k in ph} | {A(('jm', b, x, h)) for b, x in mem}
            fs = None
            for st in sts:
                f = {v: d for v, d in st.facts.items() if any(a in own for a in atoms(v))}
                # states that do not mention the carried values yet (first entry) do not constrain
                if not any(True for k in ph if st.env.get(k) is not None and any(a in own for a in atoms(topoly(st.env[k])))) and ph: continue
                fs = f if fs is None else {v: d for v, d in fs.items() if f.get(v) == d}
            seeds[h] = (ph, mem, fs or {})
        return seeds

    def carry(self, st, h):
        ph, mem, fs = self.seeds[h]
        for k in ph:
            ty = self.F.ins[k]['ty']; at = A(('j', h, k))
            st.env[k] = ('ptr', at, ZERO) if ty == 'ptr' else tobool(atom(at)) if ty == 'i1' else atom(at)
        for (base, x), sz in mem.items():
            o = st.obj(base, True); self.kill(o, x, x + sz); o.cells[x] = (atom(('jm', base, x, h)), sz)
        for v, d in fs.items(): st.facts[v] = d

    def run2(self):
        """second pass in which loop carried values have their own name from the first iteration on"""
        self.seeds = None; c = self.h.collect; self.h.collect = False
        self.run(); 
        self.h.collect = c
        self.seeds = self.learn(); self.nsteps = 0
        return self.run()

    def run(self):
        F = self.F; h = self.h
        s0 = State()
        for a in F.args:
            s0.env[a['id']] = ptr(('arg', a['id'])) if a['ty'] == 'ptr' else tobool(atom(('arg', a['id']))) if a['ty'] == 'i1' else atom(('arg', a['id']))
        h.init(self, s0)
        self.inst = {b: {} for b in F.rpo}     # block -> key -> state
        heap = []; queued = {}
        def push(b, st):
            k = self.key(st, b)
            cur = self.inst[b]
            if k in cur:
                m = self.merge(cur[k], st, b)
                if self.equal(m, cur[k]): return
                cur[k] = m
            else:
                if len(cur) >= h.K:
                    self.capped = True
                    # merge with the state of the same typestate, else any
                    kk = next((q for q in cur if q[0] == k[0]), None)
                    if kk is None and len(cur) >= 4 * h.K: kk = next(iter(cur))
                    if kk is not None:
                        m = self.merge(cur[kk], st, b)
                        if self.equal(m, cur[kk]): return
                        cur[kk] = m; k = kk
                    else: cur[k] = st
                else: cur[k] = st
            q = queued.setdefault(b, set())
            if not q: heapq.heappush(heap, (F.rpoi[b], b))
            q.add(k)
        push(0, s0)
        memo = {hh: {} for hh in F.loops}
        limit = 200000
        while heap:
            _, b = heapq.heappop(heap)
            ks = queued.pop(b, set())
            for k in list(ks):
                st = self.inst[b].get(k)
                if st is None: continue
                self.nsteps += 1
                if self.nsteps > limit: raise RuntimeError('analysis did not converge in ' + F.name)
                self.visited.add(b)
                for tgt, s in self.block(b, st.clone()):
                    h.leave(self, s, b, tgt)
                    # phis of tgt
                    vals = []
                    for I in F.blocks[tgt]:
                        if I['op'] != 'phi': break
                        for v, pb in I['in']:
                            if pb == b: 
                                t = self.val(s, v)
                                if I['ty'] == 'ptr': t = toptr(t)
                                elif I['ty'] == 'i1': t = tobool(t)
                                vals.append((I['id'], t)); break
                    for i, t in vals: s.env[i] = t
                    if tgt in F.loops and b in F.loops[tgt]['body']: self.backedge(s, F.loops[tgt], memo[tgt])
                    else:
                        self.trim(s, tgt)
                    if self.seeds and tgt in self.seeds: self.carry(s, tgt)
                    h.enter(self, s, b, tgt)
                    push(tgt, s)
        self.collect()
        return self.exits

    def collect(self):
        """one pass over the fixpoint: exits, call sites, edge states and branch conditions"""
        self.exits = []; self._exitkeys = {}
        self.sites = []; self.edges = {}; self.conds = {}; self.stores = []; self.loadsites = []
        self.obs = self.observe if self.h.collect else None
        for b in self.F.rpo:
            for st in list(self.inst[b].values()):
                for tgt, s in self.block(b, st.clone()): self.edges.setdefault((b, tgt), []).append(s)
        self.obs = None

    def observe(self, I, s):
        op = I['op']
        if op in ('call', 'invoke'):
            self.sites.append((I, s.clone(), [self.val(s, v) for v in I['args']]))
        elif op == 'store':
            self.stores.append((I, s.clone(), toptr(self.val(s, I['ops'][1])), self.val(s, I['ops'][0])))
        elif op == 'load' and self.h.loads:
            self.loadsites.append((I, s.clone(), toptr(self.val(s, I['ops'][0]))))
        elif op == 'br' and 'cond' in I:
            self.conds.setdefault(I['b'], []).append((s.clone(), tobool(self.val(s, I['cond'])), I['succ']))

    def trim(self, s, tgt):
        # forget SSA values that can no longer be used (their definition does not dominate the target)
        live = self.livein(tgt)
        if len(s.env) > len(live) * 2 + 20:
            s.env = {k: v for k, v in s.env.items() if k in live}

    def liveconst(self, b):
        if not hasattr(self, '_lc'): self._lc = {}
        r = self._lc.get(b)
        if r is None:
            r = self._lc[b] = sorted(i for i in self.livein(b) if i in self.F.ins and self.F.ins[i]['ty'] in ('i8', 'i32', 'i1') and self.F.ins[i]['op'] in ('phi', 'select'))
        return r

    def livein(self, b):
        if not hasattr(self, '_live'):
            F = self.F
            use = {}; de = {}
            for x in F.rpo:
                u = set(); d = set()
                for I in F.blocks[x]:
                    if I['op'] == 'phi': d.add(I['id']); continue
                    from .ir import operands
                    for v in operands(I):
                        if v[0] == 'v' and v[1] not in d: u.add(v[1])
                    d.add(I['id'])
                use[x] = u; de[x] = d
            live = {x: set() for x in F.rpo}
            ch = True
            while ch:
                ch = False
                for x in reversed(F.rpo):
                    o = set()
                    for s in F.succ[x]:
                        o |= live.get(s, set()) - {I['id'] for I in F.blocks[s] if I['op'] == 'phi'}
                        for I in F.blocks[s]:
                            if I['op'] != 'phi': break
                            for v, pb in I['in']:
                                if pb == x and v[0] == 'v': o.add(v[1])
                    n = use[x] | (o - de[x])
                    if n != live[x]: live[x] = n; ch = True
            for x in F.rpo:
                live[x] |= {I['id'] for I in F.blocks[x] if I['op'] == 'phi'}
            self._live = live
        return self._live[b]

    def block(self, b, st):
        """list of (target, state)"""
        F = self.F; cur = [st]; out = []
        for I in F.blocks[b]:
            op = I['op']
            if op == 'phi': continue
            nxt = []
            for s in cur:
                if self.obs: self.obs(I, s)
                if op == 'load':
                    p = toptr(self.val(s, I['ops'][0]))
                    t = self.load(s, p, I['sz'], I)
                    if I['ty'] == 'ptr': t = toptr(t)
                    elif I['ty'] == 'i1': t = tobool(t)
                    s.env[I['id']] = t; nxt.append(s)
                elif op == 'store':
                    self.store(s, toptr(self.val(s, I['ops'][1])), self.val(s, I['ops'][0]), I['sz'], I); nxt.append(s)
                elif op in ('call', 'invoke'):
                    for s2, k in self.do_call(s, I, None):
                        if k == 'ret': nxt.append(s2)
                        elif op == 'invoke': out.append((I['unw'], s2))
                        else: self.exit('throw', s2, I)
                elif op == 'br':
                    if 'cond' not in I: out.append((I['succ'][0], s))
                    else:
                        c = tobool(self.val(s, I['cond']))
                        for x in self.assume(s, c, True): out.append((I['succ'][0], x.clone() if x is s else x))
                        for x in self.assume(s, c, False): out.append((I['succ'][1], x.clone() if x is s else x))
                elif op == 'switch':
                    c = topoly(self.val(s, I['cond']))
                    rest = [s]
                    for cv, tg in I['cases']:
                        e = rel(c, const(cv), EQ, 7)
                        nr = []
                        for x in rest:
                            for y in self.assume(x, e, True): out.append((tg, y.clone()))
                            nr += self.assume(x, e, False)
                        rest = nr
                    for x in rest: out.append((I['default'], x.clone()))
                elif op == 'ret':
                    v = self.val(s, I['ops'][0]) if I.get('ops') else None
                    self.exit('ret', s, I, v)
                elif op == 'resume': self.exit('throw', s, I)
                elif op == 'unreachable': pass
                elif op == 'select' and self.h.split_select(I):
                    c = tobool(self.val(s, I['ops'][0]))
                    for val_, ix in ((True, 1), (False, 2)):
                        for x in self.assume(s, c, val_):
                            x = x.clone(); x.env[I['id']] = self.val(x, I['ops'][ix]); nxt.append(x)
                elif op == 'fence': nxt.append(s)
                else:
                    s.env[I['id']] = self.evalop(s, I); nxt.append(s)
            if op == 'invoke': out += [(I['to'], s) for s in nxt]; nxt = []
            cur = nxt
            if not cur: break
        return out

    # ---- results ------------------------------------------------------------
    def ival(self, st, t):
        """interval of an integer term"""
        if is_const(t): v = cval(t); return (v, v)
        if t[0] == 'B':
            q = self.query(st, t)
            return (1, 1) if q else (0, 0) if q is False else (0, 1)
        t = topoly(t); k = 0.0; items = []
        for m, c in t[1]:
            if m == (): k = c
            else: items.append((m, c))
        f = st.facts.get(('P', tuple(items))) if items and items[0][1] == 1.0 else None
        lo = hi = None
        if f is not None: lo, hi = f[0] + k, f[2] + k
        else: lo, hi = -INF, INF
        if lo == -INF and len(items) == 1 and items[0][1] == 1.0 and len(items[0][0]) == 1 and items[0][0][0][1] == 1 and AT[items[0][0][0][0]][0] == 'j':
            lo = self.ivlow(items[0][0][0][0]) + k
        return (lo, hi)

    def ivlow(self, j):
        """lower bound of a loop counter: starts at a constant and is only increased by constants"""
        r = self._ivl.get(j)
        if r is None:
            x = AT[j]; I = self.F.ins.get(x[2]); L = self.F.loops.get(x[1]); r = -INF
            if I is not None and I['op'] == 'phi' and L is not None and I['ty'] in ('i32', 'i64'):
                r = INF
                for v, pb in I['in']:
                    if pb in L['body']:
                        d = self.F.ins.get(v[1]) if v[0] == 'v' else None
                        if not (d is not None and d['op'] == 'add' and ['v', x[2]] in [list(q) for q in d['ops']] and any(q[0] == 'c' and 0 <= q[1] < 2 ** 31 for q in d['ops'])): r = -INF; break
                    elif v[0] == 'c' and v[1] >= 0: r = min(r, v[1])
                    else: r = -INF; break
                if r == INF: r = -INF
            self._ivl[j] = r
        return r

def math_floor(x):
    import math; return math.floor(x)
def math_ceil(x):
    import math; return math.ceil(x)

def bxor(a, b):
    if a == FALSE: return b
    if b == FALSE: return a
    if a == TRUE: return bnot(b)
    if b == TRUE: return bnot(a)
    if a == b: return FALSE
    return bor(band(a, bnot(b)), band(bnot(a), b))

def minmax(c, a, b):
    """select(c, a, b) recognised as max/min/abs"""
    if c[1] != 'rel': return None
    d = sub(a, b)
    if not d[1]: return a
    # c: var ? k with mask; compare with a ? b
    for mask in (LT, LT | EQ, GT, GT | EQ):
        for full, un in ((15, 0), (7, 0), (15, 8)):
            r = rel(a, b, mask | un, full)
            if r[1] == 'rel' and r[2:5] == c[2:5]:
                x, y = (a, b) if a[1] <= b[1] else (b, a)
                if neg(a) == b: return fabs(a) if mask & GT else neg(fabs(a))
                return fn('max' if mask & GT else 'min', x, y)
    # abs: select(x<0, -x, x) written against constant 0
    if neg(a) == b and c[3] == 0:
        v = c[2]
        for s_, t in ((1, a), (-1, b)):
            if len(t[1]) and len(v[1]) == len(t[1]) and t[1][0][1] != 0:
                tt = scale(t, 1.0 / t[1][0][1])
                if tt == v:
                    # c is about sign of v; a = +-v*|..|
                    apos = a[1][0][1] > 0
                    m = c[4] & 7
                    if m in (LT, LT | EQ): return fabs(a) if not apos else neg(fabs(a))
                    if m in (GT, GT | EQ): return fabs(a) if apos else neg(fabs(a))
    return None
