"""G03: fixed-size storage is never overrun."""
TECH = 'symbolic bounds of every access with a computed index into a fixed-size table (facts of the path, induction variables, member-count invariant established by setSUs)'
NOTE = ('Decides every access of the library with a computed index into a local table of fixed size, the fixed tables of the degradation lists and the views of cell states. The bound on the number of members that the pack functions rely on is itself proved at the only place that fills the member vector. '
        'Tables whose size is chosen at run time (vectors) and the helpers that generate example batteries are not part of this property.')
import math
from vf.core import *
from vf.interp import Hooks
from vf.loops import Loops, method
from vf.bounds import Bounds
from vf import term as T

MAXN = None

class H(Hooks):
    K = 24; loads = True; collect = True
    def may_throw(self, ai, st, I, callee): return not _nt(callee)
    def havoc(self, ai, st, I, callee, args):
        # operations of members do not change the tables or the member vector of their owner
        if 'slide::' in callee or callee.startswith('vcall:'): return [a[1] for a in args if a[0] == 'ptr' and AT[a[1]][0] == 'alloca']
        return None
    def joinps(self, a, b): return ()

def _nt(c):
    from vf.interp import nothrow
    return nothrow(c)

SKIP = r'paperCode|main\.cpp|examples|benchmark|determine_|degradation\.(cpp|hpp)$|makeBattery|interpolation\.hpp|read_CSVfiles'
GROW = r'std::vector<slide::Deep_ptr<slide::StorageUnit>.*>::(push_back|emplace_back|resize|insert|assign|emplace|swap|operator=)'

def run(ctx):
    ctx.rule = ('every load or store with a computed index whose object is a local table of fixed size: 0 <= index < size from the facts of the path, with at most MODULE_NSUs_MAX members in a pack; setSUs refuses more members before anything is stored and no other function makes the member vector longer; '
                'SmallVector: stores only below its capacity, one element per push_back, errors change nothing; viewStates hands out exactly the stored states')
    ctx.assume = ['operations of members do not change the member vector of their owner', 'interpolation and file readers are covered by F04 and F05', 'signed counters do not overflow']
    small(ctx); views(ctx)
    lim = members(ctx)
    tables(ctx, lim)

# ---- degradation lists ---------------------------------------------------------
def small(ctx):
    rs = []
    for n, r in (('push_back', r'slide::SmallVector<unsigned char, .*>::push_back\('), ('ctor', r'slide::SmallVector<unsigned char, .*>::SmallVector\(unsigned char\)'), ('index', r'slide::SmallVector<unsigned char, .*>::operator\[\]\(unsigned char\)$'), ('add_model', r'slide::DEG_ID::DegArray::add_model\(')):
        f = ctx.find(r)
        if f: rs.append(dict(name=n, cls='', fn=f[0]['name']))
        elif n != 'add_model': ctx.undecided('SmallVector ' + n, 'not found')
    P = ctx.load(rs)
    cls = next((c for c in P.classes if c.startswith('slide::SmallVector<')), None)
    if cls is None: ctx.undecided('SmallVector', 'layout not found'); return
    fd, fn = P.field(cls, 'data'), P.field(cls, 'N')
    if not fd or not fn: ctx.undecided('SmallVector', 'members not found'); return
    d0, cap, oN = fd[0], fd[1], fn[0]
    for r in rs:
        n = r['name']; F = P.fn(n)
        if F is None: ctx.undecided('SmallVector ' + n, 'not loaded'); continue
        h = H(); a = ctx.ai(F, P, h, cls, loops=True); th = a.this; L = Loops(a)
        N0 = atom(('E', th, oN)); inv = [rel(N0, const(cap), LT | EQ, 7), rel(N0, ZERO, GT | EQ, 7)] if n != 'ctor' else []
        inv += [rel(atom(('arg', x['id'])), ZERO, GT | EQ, 7) for x in F.args if x['ty'] == 'i8']   # element type is unsigned
        for kind, lst in (('store', a.stores), ('load', a.loadsites)):
            for x in lst:
                I, st, p = x[0], x[1], x[2]
                if p[1] != th or is_const(p[2]): continue
                ctx.analysed['call_sites'] += 1
                verdict(ctx, 'SmallVector %s %s' % (n, kind), 'SmallVector::%s' % n, a, L, F, I, st, sub(p[2], const(d0)), cap, 1, inv)
        for e in a.exits:
            if e['kind'] == 'throw':
                ch = [x for x in a.changed(e['st'], th)]
                if n == 'ctor': continue
                ctx.check('SmallVector %s refuses before storing' % n, not ch, 'SmallVector::%s raises an error after it has changed the list' % n, F.loc(e['I'])); continue
            v = topoly(a.read(e['st'], th, oN))
            if n == 'index':
                p = e['val']
                if p[0] == 'ptr' and p[1] == th: verdict(ctx, 'SmallVector element handed out', 'SmallVector::operator[]', a, L, F, e['I'], e['st'], sub(p[2], const(d0)), cap, 1, inv)
                continue
            if n == 'add_model': continue
            if n == 'push_back':
                w = add(N0, ONE); ctx.check('SmallVector push_back counts one', topo8(v) == w, 'SmallVector::push_back changes the number of elements to %s' % show(v)[:80], F.loc(e['I']))
                ok = Bounds(a, inv).ge0(e['st'], sub(const(cap), w))
                (ctx.ok if ok else lambda k: ctx.violation(k, 'SmallVector::push_back succeeds although the list is full', F.loc(e['I'])) if ok is False else ctx.undecided(k, show(v)))('SmallVector push_back within capacity')
            if n == 'ctor':
                nn = [x for x in F.args if x['ty'] == 'i8']
                if len(nn) == 1:
                    lo, hi = a.ival(e['st'], atom(('arg', nn[0]['id'])))
                    if hi <= cap: ctx.ok('SmallVector ctor refuses a longer list')
                    else: ctx.violation('SmallVector ctor refuses a longer list', 'a SmallVector is built for %s elements, but it can hold %d' % ('any number of' if hi == float('inf') or hi >= 255 else '%d' % hi, cap), F.loc(e['I'])); continue
                q = Bounds(a, []).ge0(e['st'], sub(const(cap), topo8(v)))
                if q: ctx.ok('SmallVector ctor within capacity')
                elif q is False: ctx.violation('SmallVector ctor within capacity', 'a SmallVector longer than its capacity can be built', F.loc(e['I']))
                else: ctx.undecided('SmallVector ctor within capacity', show(v))

def topo8(v):
    """strip truncations to a byte"""
    v = topoly(v); x = as_atom(v)
    while x is not None and AT[x][0] == 'fn' and AT[x][1] in ('trunc', 'zext', 'and') : v = topoly(AT[x][2]); x = as_atom(v)
    return v

# ---- views ---------------------------------------------------------------------
def views(ctx):
    for c in CELLS:
        P = ctx.load(ctx.roots(c, ['viewStates'])); n = c + '::viewStates'; F = P.fn(n); cls = 'slide::' + c
        if F is None: ctx.undecided(n, 'not found'); continue
        f = P.field(cls, 'st') or P.field('slide::' + demcls(c), 'st')
        if not f: ctx.undecided(n, 'states not found'); continue
        a = ctx.ai(F, P, H(), cls)
        for e in a.exits:
            if e['kind'] != 'ret': continue
            v = e['val']
            if v[0] != 'agg': ctx.undecided(n, 'result not understood'); continue
            d = dict(v[1]); b, k = toptr(d[(0,)]), topoly(d.get((1,), ZERO))
            if b[1] != a.this or not is_const(b[2]) or not is_const(k): ctx.undecided(n, '%s, %s' % (show(b), show(k))); continue
            o, m = cval(b[2]), cval(k)
            ctx.check(n, o == f[0] and m * 8 == f[1], '%s hands out %d values at offset %d of a state of %d values at offset %d' % (n, m, o, f[1] // 8, f[0]), F.loc(e['I']))

# ---- number of members -----------------------------------------------------------
def members(ctx):
    """largest number of members setSUs accepts"""
    n = 'Module::setSUs'; f = ctx.find(r'slide::Module::setSUs\(')
    if not f: ctx.undecided(n, 'not found'); return None
    P = ctx.load([dict(name=n, cls='', fn=f[0]['name'])]); F = P.fn(n)
    a = ctx.ai(F, P, H(), 'slide::Module', loops=True)
    # the span arrives as pointer and length
    args = [x for x in F.args if x['id'] != F.this]
    ptrs = [x for x in args if x['ty'] == 'ptr']; ints = [x for x in args if x['ty'] == 'i64']
    if len(ptrs) != 1 or len(ints) != 1: ctx.undecided(n, 'arguments not understood'); return None
    size = atom(('arg', ints[0]['id'])); fs = P.field('slide::Module', 'SUs'); cap = None
    lim = set()
    for I, st, args in a.sites:
        d = I.get('dem') or ''
        if re.search(GROW, d) or '#setParent(' in d or '::clear()' in d and 'Deep_ptr' in d:
            lo, hi = a.ival(st, size); lim.add((hi, F.loc(I)))
    for I, st, p, v in a.stores:
        if p[1] == a.this and is_const(p[2]) and fs[0] <= cval(p[2]) < fs[0] + 24: lo, hi = a.ival(st, size); lim.add((hi, F.loc(I)))
    if not lim: ctx.undecided(n, 'no member is stored'); return None
    worst = max(lim)
    # nobody else adds members
    fs2 = [x for x in ctx.find(r'slide::') if 'src/' in x.get('file', '') and not re.search(SKIP, x.get('file', '')) and not re.search(r'::Module\(|::setSUs\(|^std::', x['dem'])]
    return worst

# ---- tables -----------------------------------------------------------------------
def tables(ctx, lim):
    fs = [f for f in ctx.find(r'slide::') if 'src/' in f.get('file', '') and not re.search(SKIP, f.get('file', '')) and not re.search(r'^(void |auto |bool |double )?std::|vfw_', f['dem'])]
    rs = [dict(name='%d' % i, cls='', fn=f['name']) for i, f in enumerate(fs)]
    R = ctx.load(rs, force=['nothing_at_all'], opaque=['.*slide::'])
    todo = []
    for i, f in enumerate(fs):
        F = R.fn('%d' % i)
        if F is None: continue
        al = {I['id']: I for b in F.rpo for I in F.blocks[b] if I['op'] == 'alloca'}
        if any(table(I) for I in al.values()): todo.append(f)
        for b in F.rpo:
            for I in F.blocks[b]:
                if re.search(GROW, I.get('dem') or '') and not re.search(r'::setSUs\(|::Module(_s|_p)?\(|::copy\(', f['dem']):
                    ctx.violation('member vector of a pack', '%s makes a member vector longer without the check of setSUs (%s)' % (f['dem'][:80], F.loc(I)), F.loc(I))
    ctx.ok('member vector of a pack', 'changed by setSUs and copies only')
    used = False
    for f in todo:
        m = re.search(r'slide::(\w+(?:<[^>]*>)?)::(~?\w+)\(', f['dem']); n = (m.group(1) + '::' + m.group(2)) if m else f['dem'][:60]
        P = ctx.load([dict(name=n, cls='', fn=f['name'])], never=[r'slide::(StorageUnit|Procedure|Cycler)::', r'slide::visit_SUs', r'slide::Cell[A-Za-z_<>0-9]*::(dState|V\(|setT)'] if 'Cell_SPM' not in n else []); F = P.fn(n)
        if F is None: ctx.undecided(n, 'not loaded'); continue
        tab = {A(('alloca', I['id'])): I for b in F.rpo for I in F.blocks[b] if I['op'] == 'alloca' and table(I)}
        if not any(I['op'] == 'getelementptr' and I.get('var') for b in F.rpo for I in F.blocks[b]): continue
        cls = 'slide::' + m.group(1) if m else None
        try: a = ctx.ai(F, P, H(), cls, loops=True)
        except Exception as e: ctx.undecided(n, '%s %s' % (type(e).__name__, e)); continue
        L = Loops(a); inv = []; isp = cls and P.field(cls, 'SUs')
        if isp and a.this is not None:
            o = isp[0]; nn = scale(sub(topoly(ptr(('E', a.this, o + 8))), topoly(ptr(('E', a.this, o)))), 0.125)
            ENDS.update(T.atoms(nn)); inv = [rel(nn, ZERO, GT | EQ, 7)]
            L_ = lim[0] if isinstance(lim, tuple) else lim
            if L_ is not None and L_ != float('inf'): inv.append(rel(nn, const(L_), LT | EQ, 7))
        done = set()
        for kind, lst in (('written', a.stores), ('read', a.loadsites)):
            for x in lst:
                I, st, p = x[0], x[1], x[2]
                if p[1] not in tab or is_const(p[2]): continue
                ctx.analysed['call_sites'] += 1
                size = tab[p[1]]['size']; key = '%s table of %d %s at %s' % (n, size // 8, kind, F.loc(I))
                used = used or bool(inv)
                verdict(ctx, key, n, a, L, F, I, st, p[2], size, 8, inv, lim)

def table(I):
    t = I.get('aty') or ''
    return bool(re.match(r'\[\d+ x (double|float|i\d+)\]$', t) or re.search(r'= type \{ \[\d+ x double\] \}', t) and 'std::array' in t)

def verdict(ctx, key, n, a, L, F, I, st, off, size, w, inv, lim=None):
    B = Bounds(a, inv)
    if not B.states(st): return
    idx = scale(off, 1. / w); n_ = size // w
    for what, d in (('before', off), ('behind', sub(const(size - w), off))):
        q = None; no = False; k2 = key + (' (start)' if what == 'before' else ' (end)')
        for fn in (lambda: B.ge0(st, d), lambda: linear(a, B, st, d), lambda: first(a, L, B, st, d), lambda: cover(a, L, B, F, I, st, idx, what, n_)):
            q = fn()
            if q is True: break
            no = no or q is False
        if q is True: ctx.ok(k2); continue
        r = None
        if no and all(AT[x][0] in ('E', 'arg') for x in T.atoms(d)): r = 'index %s' % show(idx)[:60]
        r = r or reach(a, L, B, F, I, st, idx, what, n_)
        if r and isinstance(lim, tuple) and what == 'behind':
            ctx.violation('members beyond the tables', '%s indexes a table of %d entries with the members of a pack, but setSUs accepts %s members (%s)' % (n, n_, 'any number of' if lim[0] == float('inf') else '%d' % lim[0], lim[1]), F.loc(I))
        elif r: ctx.violation(k2, '%s: an access %s %s the %s of a table of %d entries is possible: %s' % (n, F.loc(I), what, 'start' if what == 'before' else 'end', n_, r), F.loc(I))
        else: ctx.undecided(k2, 'index %s' % show(idx)[:120])

def norm8(st):
    """linear inequalities x >= 0 known in a state"""
    r = []
    for var, (lo, lop, hi, hop, nan, neq) in st.facts.items():
        if nan or len(var[1]) > 6: continue
        # differences of two pointers to 8-byte elements are multiples of 8
        k = step(var)
        if abs(lo) != float('inf'): r.append(sub(var, const(math.ceil(lo / k) * k if k else lo)))
        if abs(hi) != float('inf'): r.append(sub(const(hi), var) if not k else sub(const(math.floor(hi / k) * k), var))
    return r

def step(var):
    """var is a multiple of this number (0: not known): balanced differences of the ends of a member vector, and integers times 8"""
    ps = {}; o = []
    for m, c in var[1]:
        if m == (): return 0
        if len(m) == 1 and m[0][1] == 1 and AT[m[0][0]][0] == 'p2i': ps[m[0][0]] = c
        else: o.append((m, c))
    if sum(ps.values()) or len(ps) != 2: return 0
    k = abs(next(iter(ps.values())))
    if not all(a in ENDS for a in ps): return 0
    for m, c in o:
        if any(AT[a][0] not in ('j', 'jm') or e != 1 for a, e in m) or (c / k) % 8: return 0
    return 8 * k

ENDS = set()

def linear(a, B, st, d):
    for s in B.states(st):
        hyp = norm8(s)
        if not elim(a, B, s, d, hyp, 3): return None
    return True

def first(a, L, B, st, d):
    """a counter only moves away from the end: its first value decides"""
    for m, c in d[1]:
        if len(m) != 1 or m[0][1] != 1: continue
        v = L.iv.get(m[0][0])
        if v is None or len(v[1]) != 1 or not is_const(v[2] if isinstance(v[2], tuple) else const(v[2])): continue
        step = cval(v[2]) if isinstance(v[2], tuple) else v[2]
        if c * step <= 0: continue
        e = add(sub(d, mk({m: c})), scale(topoly(next(iter(v[1]))), c))
        if linear(a, B, st, e) is True: return True
    return None

def elim(a, B, s, d, hyp, depth):
    if is_const(d): return cval(d) >= 0
    if B.prove(s, d, 2, ()) is True: return True
    if depth == 0: return False
    for m, c in d[1]:
        if m == (): continue
        for h in hyp:
            k = dict(h[1]).get(m)
            if k is None or (k > 0) != (c > 0): continue
            e = sub(d, scale(h, c / k))
            if len(e[1]) <= len(d[1]) + 1 and elim(a, B, s, e, hyp, depth - 1): return True
    return False

def ranges(a, L, F, I, idx):
    """(lo, hi) of the values an index takes: one alternative for every way the loop of its counter can end"""
    b = F.blk[I['id']]; out = []
    for m, c in idx[1]:
        if len(m) != 1 or m[0][1] != 1 or m[0][0] not in L.iv: continue
        h, ini, step = L.iv[m[0][0]]
        if len(ini) != 1: continue
        K = L.k(h); e = add(sub(idx, mk({m: c})), scale(add(topoly(next(iter(ini))), scale(atom(K), step)), c))
        for x, N in L.trip(h, b):
            co = c * step
            r = sub(e, scale(atom(K), co))
            if K in T.atoms(r) or co not in (1.0, -1.0): continue
            N = unk(L, N)
            if N is None: continue
            out.append((r, add(r, N), N) if co == 1.0 else (sub(add(r, ONE), N), add(r, ONE), N))
    return out

def unk(L, N):
    """repetition counts of outer loops back to their counters"""
    for m, c in N[1]:
        for x, _ in m:
            if AT[x][0] != 'kappa': continue
            for j, (h, ini, step) in L.iv.items():
                if L.k(h) == x and len(ini) == 1 and abs(step) == 1:
                    N = put1(N, x, scale(sub(atom(j), topoly(next(iter(ini)))), step)); break
            else: return None
    return N

def put1(p, a, v):
    r = ZERO
    for m, c in p[1]:
        if m == ((a, 1),): r = add(r, scale(v, c))
        elif any(x == a for x, _ in m): return p
        else: r = add(r, mk({m: c}))
    return r

def cover(a, L, B, F, I, st, idx, what, n_):
    for lo, hi, N in ranges(a, L, F, I, idx):
        d = topoly(lo) if what == 'before' else sub(const(n_), topoly(hi))
        ge = lambda s, d: B.prove(s, d, 4, ()) is True or elim(a, B, s, d, norm8(s), 3)
        if all(ge(s, d) and ge(s, N) for s in B.states(st)): return True
    return None

def reach(a, L, B, F, I, st, idx, what, n_):
    """an index the loop certainly takes for some pack and that is outside of the table"""
    rs = ranges(a, L, F, I, idx)
    if not rs: return None
    out = []
    for lo, hi, N in rs:
        e = topoly(lo) if what == 'before' else sub(topoly(hi), ONE)
        if is_const(e): v = cval(e)
        elif all(x in ENDS for x in T.atoms(e) if AT[x][0] in ('p2i', 'E')) and all(AT[x][0] in ('p2i', 'E', 'arg') for x in T.atoms(e)):
            bs = [a.ival(s, e) for s in B.states(st)]
            v = min(b[0] for b in bs) if what == 'before' else max(b[1] for b in bs)
            v = math.floor(v + 1e-9) if abs(v) != float('inf') else v
        else: return None
        if what == 'before' and v >= 0 or what == 'behind' and v < n_: return None
        out.append(v)
    return 'the index runs up to %g' % min(out) if what == 'behind' else 'the index starts at %g' % max(out)
