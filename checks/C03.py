"""C03: reader and writer of the state vector agree."""
TECH = 'serialisation agreement on the abstract interpretation: the sequence of parts appended by getStates() and the sequence consumed by setStates() of every class are computed (memory blocks with offsets, member loops with coverage and direction, single values) and compared; the cursor is shown to advance by exactly the part consumed'
NOTE = ('Vectors and spans of the standard library behave as documented; what a member appends or consumes is the same property of the class of the member (induction over the depth of the pack). '
        'What is restored after a refusal is property C05.')
from vf.core import *
from vf.interp import Hooks
from vf.loops import Loops, subst_atoms
from vf import term as T

NEVER = [r'>::(insert|push_back|emplace_back|append_range|resize|clear|assign|reserve)(<.*>)?\(', r'(::|#)(T|setT|validStates|checkVoltage|getStates|setStates|getFullID|getID|getStatusMessage)\(', r'check_Cell_states', r'std::basic_ostream']
APP = re.compile(r'^(?:[\w:<>&\*, ]+ )?std::vector<double.*?>::(insert|push_back|emplace_back|append_range|resize|clear|assign)(<.*>)?\(')

def tp(v): return None if v is None else (v if v[0] == 'ptr' else T.toptr(v))
def p2i(v): return None if v is None else topoly(tp(v))

class H(Hooks):
    K = 24
    def __init__(self, io, cells): self.io = io; self.cells = cells; self.ev = {}
    def init(self, ai, st): st.ps = (); self.inloop = {i for i, b in ai.F.blk.items() if ai.F.loopof.get(b)}
    st_ = None                                   # (offset, size) of the state of a cell
    def key(self, ai, st, blk): return (st.ps, self.part(ai, st)) if blk not in ai.F.loops else st.ps
    def exitkey(self, ai, st): return (st.ps, self.part(ai, st))
    def part(self, ai, st): return tuple(ai.read(st, ai.this, self.st_ + q) for q in (0, 8, 16)) if self.st_ is not None else None
    def add(self, st, I, k, **d):
        self.ev.setdefault((I['id'], k), []).append(dict(d, I=I, st=st.clone()))
        e = (I['id'], k) + ((d.get('val'),) if k == 'T' and not I['id'] in self.inloop else ())
        if not st.ps or st.ps[-1] != e: st.ps = st.ps[-6:] + (e,)
    def call(self, ai, st, I, callee, args):
        io = A(('arg', self.io)); a = [tp(x) if x is not None and x[0] == 'ptr' else x for x in args]
        u = [(st.clone(), None, 'unw')] if I['op'] == 'invoke' else []
        def at_io(x): return x is not None and x[0] == 'ptr' and x[1] == io and x[2] == ZERO
        if re.search(r'(::|#)(get|set)States\(', callee):
            i = [k for k, x in enumerate(a) if at_io(x)]
            if i: self.add(st, I, 'member', recv=a[i[0] - 1]); ai.havoc(st, io, ('adv', I['id'])); return [(st, atom(('call', I['id'], callee)), 'ret')] + u
            return [(st, atom(('call', I['id'], callee)), 'ret')] + u
        if re.search(r'(::|#)setT\(', callee): self.add(st, I, 'T', val=args[-1], recv=a[0]); return [(st, None, 'ret')] + u
        if re.search(r'(::|#)T\(\)$', callee): return [(st, atom(('call', ai.this, 'T()') if a and a[0] is not None and a[0][0] == 'ptr' and a[0][1] == ai.this else ('call', I['id'], callee)), 'ret')] + u
        if re.search(r'(::|#)(validStates|checkVoltage)\(|check_Cell_states|setBlockDegAndTherm', callee): return [(st, None, 'ret')] + u
        m = APP.match(callee)
        if m and any(at_io(x) for x in a):
            i = [k for k, x in enumerate(a) if at_io(x)][0]; r = a[i + 1:]
            pre = tp(ai.read(st, io, 8)); beg = tp(ai.read(st, io, 0))
            if m.group(1) == 'insert' and len(r) == 3 and all(x is not None and x[0] == 'ptr' for x in r): self.add(st, I, 'block', pos=r[0], end=pre, beg=beg, lo=r[1], hi=r[2])
            elif m.group(1) in ('push_back', 'emplace_back') and len(r) == 1 and r[0] is not None and r[0][0] == 'ptr' and is_const(r[0][2]): self.add(st, I, 'T', val=ai.read(st, r[0][1], int(cval(r[0][2]))), recv=None)
            else: self.add(st, I, '?', what=m.group(1))
            ai.havoc(st, io, ('adv', I['id']))
            return [(st, ptr(('call', I['id'], callee)) if I['ty'] == 'ptr' else None, 'ret')] + u
        return None

def run(ctx):
    ctx.rule = ('getStates() of a class appends the parts that its setStates() consumes, in the same order: a cell its whole state block, a pack every member in the order of the table and then its temperature; every part goes back to where it was read, '
                'and the cursor ends right behind the last part consumed')
    ctx.assume = ['members are in turn read and written by these functions', 'the checks of the new state change no stored quantity']
    for k in CELLS: cell(ctx, k)
    for k in PACKS: pack(ctx, k)
    temps(ctx)

def load(ctx, k, f):
    P = ctx.load(ctx.roots(k, [f]), never=NEVER, force=['slide::'])
    F = P.fn(k + '::' + f)
    if F is None: ctx.undecided('%s::%s' % (k, f), 'not found'); return None
    ids = [x['id'] for x in F.args]
    # (sret,) this, io
    h = H(ids[1], k in CELLS)
    if k in CELLS: h.st_ = P.field('slide::' + k, 'st')[0]
    a = ctx.ai(F, P, h, 'slide::' + k, loops=True)
    return P, F, a, h, A(('arg', ids[1]))

def cell(ctx, k):
    n = k + '::getStates'; r = load(ctx, k, 'getStates')
    if not r: return
    P, F, a, h, io = r; f = P.field('slide::' + k, 'st'); o, size = f[0], f[1]
    if not size:
        lay = sorted(x[0] for x in P.layout('slide::' + k) if x[0] > o and not x[2].startswith('st.')); size = None
    got = None
    for e in a.exits:
        if e['kind'] != 'ret': continue
        ev = e['st'].ps; loc = F.loc(e['I'])
        lp = looped(ctx, n, a, F, h, o, size)
        if lp is not None:
            if lp: got = lp; size = size or lp[1] - o; ctx.check(n + ' block', lp[0] == o and lp[1] - o == size, '%s appends bytes %d to %d of the object, the state of the cell is %d to %d' % (n, lp[0], lp[1], o, o + size), loc)
            continue
        if not ev:
            if h.ev: ctx.undecided(n, 'some path appends nothing')
            else: ctx.violation(n, '%s appends nothing' % n, loc)
            continue
        if len(ev) != 1 or ev[0][1] != 'block': ctx.undecided(n, 'what is appended was not resolved (%s)' % [x[1] for x in ev]); continue
        for d in h.ev[ev[0][:2]]:
            if d['lo'][1] != a.this or d['hi'][1] != a.this or not is_const(d['lo'][2]) or not is_const(d['hi'][2]): ctx.undecided(n, 'the block appended was not resolved'); continue
            got = (int(cval(d['lo'][2])), int(cval(d['hi'][2])))
            size = size or got[1] - o
            ctx.check(n + ' block', got[0] == o and got[1] - o == size, '%s appends bytes %d to %d of the object, the state of the cell is %d to %d' % (n, got[0], got[1], o, o + size), loc)
            ctx.check(n + ' place', d['pos'] == d['end'], '%s does not append at the end of the vector' % n, loc) if d['end'] is not None and (d['pos'][1] == d['end'][1] or d['pos'] == d['beg']) else ctx.undecided(n + ' place', 'where it is inserted was not resolved')
    n = k + '::setStates'; r = load(ctx, k, 'setStates')
    if not r or not size: return
    P, F, a, h, io = r; th = a.this; data = tp(a.read(a.exits[0]['st'].__class__(), io, 0)) if False else None
    N = size // 8
    st0 = fresh(a)
    p0 = tp(atom(('E', io, 0))) if st0 is None else tp(a.read(st0, io, 0)); z0 = topoly(a.read(st0, io, 8))
    for e in a.exits:
        if e['kind'] != 'ret': continue
        st = e['st']; loc = F.loc(e['I'])
        new = [same(a.read(st, th, o + 8 * i), a.read(st, p0[1], 8 * i)) for i in range(N)]
        old = [same(a.read(st, th, o + 8 * i), a.read(st0, th, o + 8 * i)) for i in range(N)]
        p, z = tp(a.read(st, io, 0)), topoly(a.read(st, io, 8))
        if all(old):
            continue                              # refused: C05
        if not all(new):
            b = [i for i in range(N) if not new[i]][0]; v = a.read(st, th, o + 8 * b)
            if v is None or any(AT[x][0] in ('jm', 'j', 'hv', 'ldm') for x in T.atoms(topoly(v))): ctx.undecided(n + ' block', 'entry %d is %s' % (b, show(v)[:50] if v is not None else None))
            else: ctx.violation(n + ' block', '%s: quantity %d of the state is set to %s, not to the entry of the vector it was read into' % (n, b, show(v)[:60]), loc)
            continue
        ctx.ok(n + ' block')
        dp = sub(topoly(p), topoly(p0)) if p is not None else None
        dz = sub(z0, z)
        if dp is None or not is_const(dp) or not is_const(dz): ctx.undecided(n + ' cursor', 'where the cursor ends was not resolved'); continue
        ctx.check(n + ' cursor', cval(dp) == size and cval(dz) == N, '%s consumes %g entries (%g are taken off the length), the cell has %d' % (n, cval(dp) / 8, cval(dz), N), loc)

def looped(ctx, n, a, F, h, o, size):
    """the entries are appended one by one in a loop: (from, to); () undecided, None not of this form"""
    t = [(q, d) for q, d in h.ev.items() if q[1] == 'T']
    if len(h.ev) != 1 or not t: return None
    d = t[0][1][-1]; I = d['I']; b = F.blk[I['id']]; l = F.loopof.get(b); v = d['val']
    if l is None: return None
    L = Loops(a); h2 = l['header']
    nv = topoly(L.norm(topoly(v))) if v is not None else None
    y = next((AT[z] for z in T.atoms(nv) if same(nv, atom(AT[z])) and AT[z][0] == 'ldm'), None) if nv is not None else None
    if y is None: ctx.undecided(n, 'what is appended was not resolved'); return ()
    cov = L.coverage(scale(sub(p2i(y[1]), p2i(('ptr', a.this, ZERO))), 0.125), b, h2)
    for lo, hi in cov or []:
        if is_const(lo) and is_const(hi) and L.every_iteration(h2, b): return (int(8 * cval(lo)), int(8 * cval(hi)))
    ctx.undecided(n, 'the entries appended were not resolved'); return ()


def fresh(a):
    from vf.interp import State
    return State()

def same(x, y):
    if x == y: return True
    if x is None or y is None: return False
    try: return topoly(x) == topoly(y)
    except Exception: return False

def seqs(ctx, n, k, P, F, a, h, io, writer):
    """{event kinds} of the normal exits that did not refuse"""
    out = set(); cls = 'slide::' + k
    for e in a.exits:
        if e['kind'] != 'ret': continue
        ev = e['st'].ps; loc = F.loc(e['I'])
        kinds = tuple(x[1] for x in ev)
        if writer and 'T' not in kinds and refuses(a, e): continue
        out.add((kinds, loc))
        if writer and kinds and kinds[-1] == 'T':
            d = h.ev[ev[-1][:2]]
            p2, z2 = tp(a.read(e['st'], io, 0)), a.read(e['st'], io, 8)
            if p2 is None or z2 is None or not is_const(p2[2]): ctx.undecided(n + ' cursor', 'where the cursor ends was not resolved'); continue
            c = int(cval(p2[2])); ok = True
            for at, o in ((p2[1], 0), (None, 8)):
                if at is None:
                    zs = [x for x in T.atoms(topoly(z2)) if sub(topoly(z2), topoly(atom(AT[x]))) and is_const(sub(topoly(z2), topoly(atom(AT[x]))))]
                    at = zs[0] if zs else None
                if at is None or AT[at][0] not in ('hv', 'jm', 'E') or AT[at][1] != io or AT[at][2] != o or 'member' in kinds and AT[at][0] == 'E': ok = False
            if not ok: ctx.undecided(n + ' cursor', 'where the cursor ends was not resolved'); continue
            dz = cval(sub(topoly(atom(AT[at])), topoly(z2)))
            ctx.check(n + ' cursor', c == 8 and dz == 1, '%s takes %g entries (%g off the length) for the temperature' % (n, c / 8, dz), loc)
            for v in ev[-1][2:] or [x['val'] for x in d]:
                w = a.read(e['st'], p2[1], 0)
                if same(v, w): ctx.ok(n + ' temperature'); continue
                q = [i for i in range(-4, 5) if i and same(v, a.read(e['st'], p2[1], 8 * i))]
                y = next((AT[z] for z in T.atoms(topoly(v)) if same(v, atom(AT[z]))), None) if v is not None else None
                if q: ctx.violation(n + ' temperature', '%s takes entry %d behind the last member for the temperature' % (n, q[0]), loc)
                elif y and y[0] == 'ld' and y[1] == p2[1]: ctx.violation(n + ' temperature', '%s takes the entry at byte %s behind the last member for the temperature' % (n, show(y[2])[:60]), loc)
                else: ctx.undecided(n + ' temperature', 'value %s not resolved' % (show(v)[:60] if v is not None else None))
        if not writer and kinds and kinds[-1] == 'T':
            for x in h.ev[ev[-1][:2]]:
                v = x['val']
                if v is not None and v == atom(('call', a.this, 'T()')): ctx.ok(n + ' temperature')
                elif v is not None and all(AT[z][0] == 'glob' or AT[z][0] == 'E' and AT[AT[z][1]][0] == 'glob' for z in T.atoms(topoly(v))): ctx.violation(n + ' temperature', '%s appends %s, not the temperature' % (n, show(v)[:60]), loc)
                else: ctx.undecided(n + ' temperature', 'value %s not resolved' % (show(v)[:60] if v is not None else None))
    return out

def refuses(a, e):
    v = e['val']
    if v is None: return False
    if is_const(topoly(v)): return int(cval(topoly(v))) > 2
    return True                        # the status of a member, handed on

def members(ctx, n, k, P, F, a, h, e0):
    """('one'|+1|-1) if every member is visited once"""
    cls = 'slide::' + k; L = Loops(a)
    me = [(q, d) for q, d in h.ev.items() if q[1] == 'member']
    if not me: return None
    if len(me) > 1: ctx.undecided(n + ' members', 'called at %d places' % len(me)); return 0
    q, d = me[0]; I = d[-1]['I']; s = d[-1]['st']; r = d[-1]['recv']; loc = F.loc(I); b = F.blk[I['id']]; l = F.loopof.get(b)
    if r is None or r[0] != 'ptr': ctx.undecided(n + ' members', 'receiver not resolved'); return 0
    if k == 'Battery':
        f = P.field(cls, 'cells'); v = tp(a.read(s, a.this, f[0]))
        if l is None and v == r: ctx.ok(n + ' members'); return 'one'
        ctx.undecided(n + ' members', 'receiver not resolved'); return 0
    if l is None: ctx.undecided(n + ' members', 'not in a loop'); return 0
    h2 = l['header']; f = P.field(cls, 'SUs'); addr = L.addr_of(r)
    B = set()
    for (p, q2), sts in a.edges.items():
        if q2 == h2 and p not in F.loops[h2]['body']:
            for s2 in sts: B.add((p2i(a.read(s2, a.this, f[0])), p2i(a.read(s2, a.this, f[0] + 8))))
    if addr is None or len(B) != 1: ctx.undecided(n + ' members', 'which members was not resolved'); return 0
    bg, en = next(iter(B)); cov = L.coverage(scale(topoly(addr), 0.125), b, h2)
    if not cov: ctx.undecided(n + ' members', 'range of the loop not resolved'); return 0
    if not L.every_iteration(h2, b): ctx.violation(n + ' members', '%s leaves out members' % n, loc); return 0
    K = L.k(h2); dirs = {1 if co > 0 else -1 for m, co in topoly(addr)[1] if m == ((K, 1),)}
    bad = None
    for lo, hi in cov:
        dl, dh = sub(scale(outer(a, F, h2, lo), 8.0), bg), sub(scale(outer(a, F, h2, hi), 8.0), en)
        if zero(dl) and zero(dh): bad = None; break
        bad = (dl, dh)
    if bad:
        if all(is_const(x) for x in bad): ctx.violation(n + ' members', '%s goes from member number %g to %g before the last only' % (n, cval(bad[0]) / 8, -cval(bad[1]) / 8), loc)
        else: ctx.undecided(n + ' members', 'members [%s, %s)' % (show(bad[0])[:60], show(bad[1])[:60]))
        return 0
    if len(dirs) != 1: ctx.undecided(n + ' members', 'direction not resolved'); return 0
    ctx.ok(n + ' members')
    return next(iter(dirs))

def zero(t): return all(abs(c) < 1e-9 for m, c in topoly(t)[1])

def outer(a, F, lh, t):
    def f(x):
        y = AT[x][1] if AT[x][0] == 'p2i' else x
        if AT[y][0] != 'j' or AT[y][1] != lh or F.blk[AT[y][2]] in F.loops[lh]['body']: return None
        vs = {p2i(s.env.get(AT[y][2])) if AT[x][0] == 'p2i' else s.env.get(AT[y][2]) for (p, q), sts in a.edges.items() if q == lh and p not in F.loops[lh]['body'] for s in sts}
        return next(iter(vs)) if len(vs) == 1 else None
    return subst_atoms(topoly(t), f)

def pack(ctx, k):
    res = {}
    for m in ('getStates', 'setStates'):
        n = k + '::' + m; r = load(ctx, k, m)
        if not r: return
        P, F, a, h, io = r
        sq = seqs(ctx, n, k, P, F, a, h, io, m == 'setStates')
        res[m] = ({x[0] for x in sq}, members(ctx, n, k, P, F, a, h, None), sq)
    g, s = res['getStates'], res['setStates']; n = k + ' order'
    allk = {x for q in g[0] | s[0] for x in q}
    loc = next(iter(s[2]))[1] if s[2] else None
    full = lambda q: {x for x in q if 'member' in x} or q
    if '?' in allk or not g[0] or not s[0]: ctx.undecided(n, 'parts not resolved: %s / %s' % (sorted(g[0]), sorted(s[0]))); return
    if full(g[0]) != full(s[0]): ctx.violation(n, '%s: getStates() appends %s, setStates() takes %s' % (k, names(full(g[0])), names(full(s[0]))), loc); return
    want = {('member', 'T')}
    if full(g[0]) != want: ctx.violation(n, '%s: the state vector has %s, not the members and then the temperature' % (k, names(full(g[0]))), loc); return
    if g[1] == 0 or s[1] == 0: return
    ctx.check(n, g[1] == s[1], '%s: getStates() goes through the members %s, setStates() %s' % (k, way(g[1]), way(s[1])), loc)

def names(q): return ' or '.join(' then '.join({'member': 'members', 'T': 'temperature', 'block': 'a block'}.get(y, y) for y in x) or 'nothing' for x in sorted(q))
def way(d): return {1: 'from the first to the last', -1: 'from the last to the first', 'one': 'once', None: 'not at all'}[d]

class HT(Hooks):
    K = 8

def temps(ctx):
    """setT() sets what T() gives"""
    for k in ('Module_s', 'Module_p', 'Battery'):
        cls = 'slide::' + k; n = k + ' temperature'
        P = ctx.load(ctx.roots(k, ['T', 'setT']), force=['slide::'])
        F, G = P.fn(k + '::T'), P.fn(k + '::setT')
        if F is None or G is None: ctx.undecided(n, 'not found'); continue
        a, b = ctx.ai(F, P, HT(), cls), ctx.ai(G, P, HT(), cls)
        arg = atom(('arg', G.args[1]['id']))
        for e in a.exits:
            if e['kind'] != 'ret': continue
            v = e['val']; ats = [z for z in T.atoms(topoly(v)) if AT[z][0] == 'E' and topoly(v) == topoly(atom(AT[z]))] if v is not None else ()
            x = ats[0] if ats else None
            if x is None: ctx.undecided(n, 'T() gives %s' % (show(v)[:60] if v is not None else None)); continue
            for q in b.exits:
                if q['kind'] != 'ret': continue
                w = b.read(q['st'], AT[x][1], AT[x][2])
                if same(w, arg): ctx.ok(n)
                elif w is not None and not any(AT[z][0] in ('hv', 'j', 'jm') for z in T.atoms(topoly(w))): ctx.violation(n, '%s: after setT(x), T() gives %s' % (k, show(w)[:60]), G.loc(q['I']))
                else: ctx.undecided(n, 'value not resolved')
