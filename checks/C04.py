"""C04: a copy is complete, of the same kind and shares nothing changeable."""
TECH = 'field coverage analysis of every copy function on the abstract interpretation (value and provenance of every member of the new object, dynamic type from the stored vtable), loop coverage for adopted members, and a rule for owning pointers'
NOTE = ('For every class with copy(): every member of the returned object is shown to hold the value the same member of the original had, or to be copy-constructed from exactly that member; owning pointers go through Deep_ptr, whose copy operations are shown to call copy() of what they own. '
        'Containers and strings of the standard library copy their elements (their documented behaviour, assumed). Tables of material curves and the discretisation model are common to all cells and never written after they were loaded: they are not a changeable part.')
from vf.core import *
from vf.interp import Hooks
from vf.loops import Loops, method, subst_atoms
from vf import term as T

NEVER = [r'>::(vector|basic_string|function|operator=)\((std::.*) const&\)$', r'Deep_ptr<.*>::(Deep_ptr|operator=)\(', r'#?setParent\(']
OWN = re.compile(r'^(slide::Deep_ptr<|std::(__cxx11::)?(basic_string|vector|function|map|unordered_map|deque|list|optional|variant|any|filesystem))')
COMMON = ('slide::Model_SPM*',)                      # one object for all cells, see NOTE

class H(Hooks):
    K = 32
    def init(self, ai, st): st.ps = frozenset()
    def joinps(self, a, b): return a & b
    def key(self, ai, st, blk): return None if blk in ai.F.loops else st.ps
    def exitkey(self, ai, st): return st.ps
    def call(self, ai, st, I, callee, args):
        m = re.match(r'(?:.*[ &*])?([\w:]+(?:<.*>)?)::(~?[\w]+|operator=)(?:<.*>)?\((.*)\)$', callee)
        k = copyop(callee)
        if k and len(args) >= 2 and args[0] is not None and args[1] is not None and args[0][0] == 'ptr' and args[1][0] == 'ptr' and AT[args[0][1]][0] == 'new' and is_const(args[0][2]) and is_const(args[1][2]):
            st.ps = frozenset(x for x in st.ps if x[:2] != (args[0][1], int(cval(args[0][2])))) | {(args[0][1], int(cval(args[0][2])), args[1][1], int(cval(args[1][2])))}
        if k and len(args) >= 2 and args[0] is not None and args[0][0] == 'ptr':
            # writes the object it makes only
            u = st.clone() if I['op'] == 'invoke' else None
            n = 8 if 'Deep_ptr' in k.split('<')[0] else 24 if k.startswith('std::vector') else 32
            for q in range(0, n, 8): ai.store(st, ('ptr', args[0][1], add(args[0][2], const(q))), atom(('cp', I['id'], q)), 8, I)
            if '(' in callee: st.ps = st.ps | {(args[0][1], int(cval(args[0][2])), args[1][1], int(cval(args[1][2])))} if args[1] is not None and args[1][0] == 'ptr' and is_const(args[0][2]) and is_const(args[1][2]) and AT[args[0][1]][0] == 'new' else st.ps
            return [(st, None, 'ret')] + ([(u, None, 'unw')] if u is not None else [])
        if 'setParent(' in callee:
            if args[0] is not None and args[1] is not None: st.ps = st.ps | {('adopt', args[0] if args[0][0] == 'ptr' else T.toptr(args[0]), args[1] if args[1][0] == 'ptr' else T.toptr(args[1]))}
        if 'setParent' in callee: return [(st, None, 'ret')]
        return None
    def store(self, ai, st, base, off, size, val, I):
        if AT[base][0] == 'new' and isinstance(off, (int, float)): st.ps = frozenset(x for x in st.ps if not (x[0] == base and off <= x[1] < off + size))

def copyop(d):
    """X::X(X const&) or X::operator=(X const&)"""
    m = re.search(r'(~?[\w]+|operator=)\((.*)\)$', d)
    if not m or not m.group(2).endswith(' const&'): return None
    t = m.group(2)[:-7]; pre = d[:m.start()]
    if m.group(1) == 'operator=': return t if pre.endswith(t + '::') or pre.rstrip().endswith(t + '::') else None
    return t if pre.endswith(t + '::') and re.sub(r'<.*', '', t).split('::')[-1] == m.group(1) else None

def run(ctx):
    ctx.rule = ('copy() of a class returns a new object whose vtable is that of the class, every member of which equals, or is copy-constructed from, the same member of the original (the vtable slot of every class in the tables is its own copy()); '
                'no member is a plain or shared pointer to something changeable, except the name of the owner; a copied pack names itself as owner of every one of its members; Deep_ptr copies by copy() of what it owns')
    ctx.assume = ['containers, strings and function objects of the standard library copy their contents', 'the objects exist (no empty original)']
    n = 0
    for static, top in (('N5slide11StorageUnitE', 'StorageUnit'), ('N5slide10CoolSystemE', 'CoolSystem')):
        for m, slots in sorted(ctx.vtabs(static).items()):
            s = [x for x in slots if re.search(r'::copy\(\)$', ctx.dems().get(x, ''))]
            k = name(m)
            if not s: 
                if abstract(ctx, m, slots): continue
                ctx.undecided(k + ' is copied', 'no copy() in its table'); continue
            d = ctx.dems()[s[0]]; own = d.split('::copy()')[0].split(' ')[-1]
            own = re.sub(r'(\d+)ul\b', r'\1', own).replace('slide::', '')
            if own != k:
                if abstract(ctx, m, slots): continue
                ctx.violation(k + ' copies itself', 'a copy of a %s is made by copy() of %s: it is not of the same kind' % (k, own), None); continue
            ctx.ok(k + ' copies itself'); n += 1
            one(ctx, k, m, s[0])
    deep(ctx)

def name(m):
    for k, v in {**CELLS, **PACKS, **COOLS}.items():
        if v == m: return k
    x = re.match(r'N5slide\d+(\w+)E$', m)
    return x.group(1) if x else m

def abstract(ctx, m, slots): return any('__cxa_pure_virtual' in (s or '') for s in slots)

def one(ctx, k, m, sym):
    cls = 'slide::' + k; n = k + '::copy'
    P = ctx.load([dict(name=n, cls=m, fn=sym)], never=NEVER, force=['slide::'])
    F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    a = ctx.ai(F, P, H(), cls, loops=True); th = a.this; L = Loops(a)
    for e in a.exits:
        if e['kind'] != 'ret': continue
        v = e['val']; st = e['st']
        v = T.toptr(v) if v is not None and v[0] != 'ptr' else v
        if v is None or AT[v[1]][0] != 'new' or v[2] != ZERO:
            if v is not None and v[1] == th: ctx.violation(n + ' new', '%s returns the original itself' % n, F.loc(e['I']))
            else: ctx.undecided(n + ' new', 'what is returned was not resolved')
            continue
        new = v[1]; ctx.ok(n + ' new')
        vt = a.read(st, new, 0); vn = globname(vt)
        if vn is None: ctx.undecided(n + ' kind', 'table not resolved')
        else: ctx.check(n + ' kind', vn == '_ZTV' + m, '%s returns an object of kind %s' % (n, vn), F.loc(e['I']))
        fields(ctx, n, P, cls, a, st, new, th, F.loc(e['I']), F)
        if k in PACKS: adopt(ctx, n, k, P, cls, a, L, st, new, F, e)

def globname(t):
    if t is None: return None
    t = T.toptr(t) if t[0] != 'ptr' else t
    x = AT[t[1]]
    return x[1] if x[0] == 'glob' and isinstance(x[1], str) else None

def leaves(P, cls):
    lay = P.layout(cls); names = [x[2] for x in lay]
    out = []
    for i, (o, s, n, t) in enumerate(lay):
        sub_ = [x for x in lay if x[2].startswith(n + '.')]
        if sub_ and not OWN.match(t): continue
        if any(n.startswith(x[2] + '.') and OWN.match(x[3]) for x in lay): continue
        out.append((o, s, n, t))
    out.sort()
    r = []
    for i, (o, s, n, t) in enumerate(out):
        if not s:
            nx = [x[0] for x in out if x[0] > o]
            s = {'double': 8, 'float': 4, 'int': 4, 'unsigned int': 4, 'bool': 1, 'char': 1, 'unsigned char': 1, 'unsigned long': 8, 'long': 8}.get(t) or (min(nx) - o if nx else 8)
        r.append((o, s, n, t))
    return r

def fields(ctx, n, P, cls, a, st, new, th, loc, F):
    lv = leaves(P, cls)
    if not lv: ctx.undecided(n + ' members', 'layout unknown'); return
    for o, s, f, t in lv:
        key = '%s %s' % (n, f)
        if OWN.match(t):
            c = [x for x in st.ps if len(x) == 4 and x[0] == new and x[1] == o]
            if any(x[2] == th and x[3] == o for x in c): ctx.ok(key); continue
            if c: ctx.violation(key, '%s takes %s from somewhere else' % (n, f), loc); continue
            # written by other means?
            v = a.read(st, new, o)
            z = [a.read(st, new, o + q) for q in (0, 8)] if 'vector' in t.split('<')[0] else []
            if z and all(v is not None and (null(T.toptr(v)) or topoly(v) == ZERO) for v in z): ctx.violation(key, '%s: member %s of the copy is emptied' % (n, f), loc)
            elif written_by_call(a, new, o): ctx.undecided(key, 'how the member is set was not recognised')
            else: ctx.violation(key, '%s: member %s of the copy is not taken from the original' % (n, f), loc)
            continue
        if re.match(r'std::shared_ptr<', t) and not re.match(r'std::shared_ptr<.* const>', t): ctx.violation(key, '%s: the copy shares %s with the original' % (n, f), loc); continue
        bad = None; und = False
        step = 8 if s >= 8 and s % 8 == 0 and o % 8 == 0 else s if s in (1, 2, 4, 8) else 1
        for q in range(o, o + s, step):
            x, y = a.read(st, new, q), a.read(st, th, q)
            if same(x, y): continue
            if x is not None and x[0] != 'ptr' and any(AT[z][0] in ('hv', 'jm', 'j', 'ldm', 'call') for z in T.atoms(topoly(x))): und = True; continue
            bad = (q, x)
        if bad: ctx.violation(key, '%s: member %s of the copy is %s, not the value of the original' % (n, f, show(bad[1])[:60] if bad[1] is not None else '?'), loc); continue
        if und: ctx.undecided(key, 'value not resolved'); continue
        if t.endswith('*') and t not in COMMON and f != 'parent': ctx.undecided(key, 'a plain pointer (%s) is shared with the original' % t)
        else: ctx.ok(key)

def same(x, y):
    if x == y: return True
    if x is None or y is None: return False
    try: return topoly(x) == topoly(y)
    except Exception: return False

def written_by_call(a, new, o):
    for I, s, ar in a.sites:
        d = I.get('dem') or ''
        if '::~' in d or d.startswith(('operator delete', 'llvm.lifetime', 'llvm.memcpy', 'llvm.memset')): continue
        # a plain default constructor does not bring the value of the original
        for i, x in enumerate(ar):
            if x is not None and x[0] == 'ptr' and x[1] == new and is_const(x[2]) and int(cval(x[2])) == o and len(ar) > 1: return True
    return False

def adopt(ctx, n, k, P, cls, a, L, st, new, F, e):
    key = n + ' adopts its members'
    sp = {}
    for I, s, ar in a.sites:
        if 'setParent(' in (I.get('dem') or ''): sp.setdefault(I['id'], []).append((I, s, ar))
    if not sp: ctx.violation(key, '%s: the members of the copy still name the original as their owner' % n, F.loc(e['I'])); return
    if len(sp) != 1: ctx.undecided(key, 'owners are set at %d places' % len(sp)); return
    I, s, ar = next(iter(sp.values()))[-1]; loc = F.loc(I)
    w = T.toptr(ar[1]) if ar[1] is not None and ar[1][0] != 'ptr' else ar[1]
    if w is None or w[1] != new or w[2] != ZERO:
        if w is not None and (AT[w[1]][0] == 'E' and AT[w[1]][1] == th_(a) or w[1] == th_(a) or w == ('ptr', T.ZERO, T.ZERO)): ctx.violation(key, '%s gives the members of the copy the original as owner' % n, loc)
        else: ctx.undecided(key, 'which owner is set was not resolved')
        return
    r = T.toptr(ar[0]) if ar[0][0] != 'ptr' else ar[0]
    b = F.blk[I['id']]; l = F.loopof.get(b)
    if k == 'Battery':
        f = P.field(cls, 'cells')
        v = a.read(s, new, f[0]); v = T.toptr(v) if v is not None and v[0] != 'ptr' else v
        if v == r:
            # every normal exit passes it, or the pointer was empty
            if any(x[0] == 'adopt' and x[1] == v for x in e['st'].ps): ctx.ok(key)
            elif not a.assume(e['st'].clone(), nonnull(v), True): ctx.ok(key)
            else: ctx.violation(key, '%s: on some path the cells of the copy still name the original as their owner' % n, F.loc(e['I']))
        else: ctx.undecided(key, 'whose owner is set was not resolved')
        return
    if l is None:
        f = P.field(cls, 'SUs'); g = p2i(a.read(s, new, f[0])); x = AT[r[1]]
        if x[0] == 'ld' and is_const(r[2]): x = (x[0], x[1], x[2])
        ad = L.addr_of(r)
        if g is not None and ad is not None and is_const(sub(topoly(ad), g)): ctx.violation(key, '%s sets the owner of one member only' % n, loc)
        else: ctx.undecided(key, 'owners are not set in a loop')
        return
    h = l['header']; f = P.field(cls, 'SUs'); x = AT[r[1]]
    addr = L.addr_of(r)
    B = set()
    for (p, q), sts in a.edges.items():
        if q == h and p not in F.loops[h]['body']:
            for s2 in sts: B.add((p2i(a.read(s2, new, f[0])), p2i(a.read(s2, new, f[0] + 8))))
    if addr is None or len(B) != 1: ctx.undecided(key, 'which members was not resolved'); return
    bg, en = next(iter(B))
    cov = L.coverage(scale(topoly(addr), 0.125), b, h)
    if not cov: ctx.undecided(key, 'range of the loop not resolved'); return
    if not L.every_iteration(h, b): ctx.violation(key, '%s does not set the owner of every member' % n, loc); return
    lo, hi = [scale(outer(a, F, h, q), 8.0) for q in cov[0]]
    dl, dh = sub(lo, bg), sub(hi, en)
    og = [p2i(a.read(s, th_(a), f[0])), p2i(a.read(s, th_(a), f[0] + 8))]
    if zero(dl) and zero(dh): ctx.ok(key)
    elif None not in og and zero(sub(lo, og[0])) and zero(sub(hi, og[1])): ctx.violation(key, '%s makes the copy the owner of the members of the original' % n, loc)
    elif is_const(dl) and is_const(dh): ctx.violation(key, '%s sets the owner of the members from number %g to %g before the last only' % (n, cval(dl) / 8, -cval(dh) / 8), loc)
    else: ctx.undecided(key, 'members [%s, %s)' % (show(dl)[:60], show(dh)[:60]))

def th_(a): return a.this
def zero(t): return all(abs(c) < 1e-9 for m, c in topoly(t)[1])
def p2i(v): return None if v is None else topoly(T.toptr(v) if v[0] != 'ptr' else v)

def outer(a, F, lh, t):
    """values computed before a loop, as they were when the loop was entered"""
    def f(x):
        y = AT[x][1] if AT[x][0] == 'p2i' else x
        if AT[y][0] != 'j' or AT[y][1] != lh or F.blk[AT[y][2]] in F.loops[lh]['body']: return None
        vs = {p2i(s.env.get(AT[y][2])) if AT[x][0] == 'p2i' else s.env.get(AT[y][2]) for (p, q), sts in a.edges.items() if q == lh and p not in F.loops[lh]['body'] for s in sts}
        return next(iter(vs)) if len(vs) == 1 else None
    return subst_atoms(topoly(t), f)

class HD(Hooks):
    K = 16
    def key(self, ai, st, blk): return st.ps
    def exitkey(self, ai, st): return st.ps
    def call(self, ai, st, I, callee, args):
        if re.search(r'#?copy\(\)$', callee): u = st.clone(); st.ps = ('copied',); return [(st, ptr(('call', I['id'], callee)), 'ret')] + ([(u, None, 'unw')] if I['op'] == 'invoke' else [])
        return None

def deep(ctx):
    """copying an owning pointer copies what it owns"""
    fs = []
    for f in ctx.find(r'slide::Deep_ptr<.*>::(Deep_ptr|operator=)(<.*>)?\('):
        d = f['dem']
        m = re.search(r'::(Deep_ptr|operator=)(<.*>)?\((?:slide::Deep_ptr|std::unique_ptr)<(.*)> const&\)$', d)
        if m: fs.append((f, m))
    if not fs: ctx.undecided('Deep_ptr', 'no copy operation found'); return
    for f, m in fs:
        P = ctx.load([dict(name='deep', cls='', fn=f['name'])], never=[r'::copy\(\)$'], force=['slide::', 'std::unique_ptr', 'std::__uniq_ptr', 'std::_?[Tt]uple', 'std::get', 'std::_Head_base', 'std::__get_helper'])
        F = P.fn('deep'); n = re.sub(r'^(?:[\w:<>&\* ]+ )?(slide::Deep_ptr<)', r'\1', f['dem'])[:90]
        if F is None: ctx.undecided(n, 'not found'); continue
        a = ctx.ai(F, P, HD(), ''); me = A(('arg', F.args[0]['id'])) if a.this is None else a.this; ot = A(('arg', F.args[1]['id']))
        src = ('E', ot, 0)
        for e in a.exits:
            if e['kind'] != 'ret': continue
            v = a.read(e['st'], me, 0); v = T.toptr(v) if v is not None and v[0] != 'ptr' else v
            loc = F.loc(e['I']); q = a.read(e['st'], ot, 0)
            if v is None: ctx.undecided(n, 'value not resolved'); continue
            x = AT[v[1]]
            if x[0] == 'call' and re.search(r'copy\(\)$', x[2]):
                rec = [ar[0] for I, s, ar in a.sites if I['id'] == x[1]]
                ok = any(r is not None and T.toptr(r) == T.toptr(q) for r in rec)
                ctx.check(n, ok or None, '', loc) if ok else ctx.undecided(n, 'whose copy() was not resolved')
            elif T.toptr(v) == T.toptr(q) and not null(v): ctx.violation(n, '%s: both pointers own the same object' % n, loc)
            elif null(v):
                # only when the other one is empty
                st2 = a.assume(e['st'].clone(), nonnull(q), True) if q is not None else []
                if not st2: ctx.ok(n)
                else: ctx.violation(n, '%s can leave the copy empty although the original is not' % n, loc)
            elif x[0] == 'E' and x[1] == me: 
                if selfassign(a, e['st'], me, ot, f): ctx.ok(n)
                else: ctx.undecided(n, 'keeps what it had')
            else: ctx.undecided(n, 'holds %s' % show(v)[:60])

def null(v): return v == ('ptr', A(('null',)), ZERO) or topoly(v) == ZERO

def nonnull(q): return T.rel(p2i(q), const(0), T.LT | T.GT, 7)

def selfassign(a, st, me, ot, f): return 'operator=' in f['dem']
