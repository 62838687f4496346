"""C06: a remembered voltage is never out of date."""
TECH = 'effect and typestate analysis: what the voltage reads versus what every other operation changes, with the flag of the remembered value tracked on all paths'
NOTE = ('The fields the voltage is computed from are collected from the code of V() itself. Every other member function of the remembering classes is then analysed on all paths, error exits included: whenever it ends '
        '(or asks for the voltage) with one of them changed, the remembered value must be marked out of date, recomputed since, or restored together with its flag.')
from vf.core import *
from vf.interp import Hooks, nothrow, readonly, _pure
from vf.loops import method, Loops
from vf.agg import SplitPhi

def over(lo, hi, D): return any(l < hi and lo < h for l, h in D)

class H(Hooks):
    """typestate: 'chg' = something the voltage needs was changed since entry or the last call of V; 'v' = V was called"""
    K = 24
    loads = True
    def __init__(self, D=(), cache=(), flag=None, cls=None, vsym=None, mut=None):
        self.D = D; self.cache = cache; self.flag = flag; self.vname = vsym; self.mut = mut; self.stale = []; self.unk = []
    def key(self, ai, st, blk):
        if self.flag is None: return None
        f = ai.read(st, ai.this, self.flag[0])
        return (ai.query(st, rel(topoly(f), ZERO, EQ, 7)), f == ai.default(ai.this, self.flag[0]), restored(ai, st, self) if 'chg' in st.ps else None)
    def exitkey(self, ai, st): return self.key(ai, st, None)
    def touch(self, ai, st, lo, hi, I, how):
        if over(lo, hi, self.D): st.ps = tuple(sorted(set(st.ps) | {'chg'}))
    def store(self, ai, st, base, off, size, val, I):
        if base == ai.this and isinstance(off, int):
            self.touch(ai, st, off, off + size, I, 'store')
        elif base == ai.this:
            k = int(dict(off[1]).get((), 0.0)); lo, hi = ai.extent(base, k); self.touch(ai, st, lo, hi, I, 'store')
        elif inheap(ai, base, self.D): self.touch(ai, st, *heapof(base), I, 'store')
    def havoc(self, ai, st, I, callee, args):
        """only V() marks the remembered value valid: no call into other objects does (effects on D are recorded by call())"""
        if _pure.search(callee) or I.get('ro'): return []
        if nothrow(callee): return [a[1] for a in args[:1] if a[0] == 'ptr' and AT[a[1]][0] in ('alloca', 'new')]
        return [a[1] for k, a in enumerate(args) if a[0] == 'ptr' and a[1] != ai.this and not (k == 0 and readonly(callee))]
    def call(self, ai, st, I, callee, args):
        if self.vname and callee == self.vname and args and args[0] == ('ptr', ai.this, ZERO):
            f = ai.read(st, ai.this, self.flag[0])
            if 'chg' in st.ps and ai.ival(st, f) != (0, 0) and restored(ai, st, self) is not True:
                self.stale.append((I, f))
            st.ps = ('v',)
            o = st.obj(ai.this, True)
            ai.kill(o, self.flag[0], self.flag[0] + 1); o.cells[self.flag[0]] = (atom(('vflag', I['id'])), 1)
            for lo, hi in self.cache: ai.kill(o, lo, hi); o.cells[lo] = (atom(('vval', I['id'])), hi - lo)
            r = [(st, atom(('vval', I['id'])), 'ret')]
            if I['op'] == 'invoke': r.append((st.clone(), None, 'unw'))
            return r
        m = method(callee)
        if self.mut is not None and callee.startswith('vcall:slide::StorageUnit') or self.mut is not None and 'slide::run<' in callee:
            q = m not in self.mut if callee.startswith('vcall:') else False
            if not q: st.ps = tuple(sorted(set(st.ps) | {'chg', 'mem'}))
            return None
        if callee.startswith('std::') and not readonly(callee) and I.get('op') in ('call', 'invoke') and not I.get('ro'):
            for a in args[:1]:
                if a[0] == 'ptr' and a[1] == ai.this and is_const(a[2]):
                    lo, hi = ai.extent(ai.this, int(cval(a[2])))
                    self.touch(ai, st, max(lo, int(cval(a[2]))), hi, I, 'call')
        elif not callee.startswith(('std::', 'llvm.', 'operator')) and not (readonly(callee) or _pure.search(callee) or nothrow(callee) or I.get('ro')):
            for a in args:
                if a[0] == 'ptr' and a[1] == ai.this and is_const(a[2]):
                    lo, hi = ai.extent(ai.this, int(cval(a[2])))
                    if a[2] == ZERO: lo, hi = 0, 1e9
                    if over(lo, hi, self.D): self.touch(ai, st, lo, hi, I, 'call'); self.unk.append((I, callee))
        return None

def heapof(base):
    while AT[base][0] in ('E', 'ld', 'hv', 'p2i', 'jm'):
        k = AT[base]
        if k[0] == 'E' and isinstance(k[2], int): 
            if AT[k[1]][0] == 'arg': return (k[2], k[2] + 8)
        base = k[1]
    return (-2, -1)
def inheap(ai, base, D):
    b = base
    while AT[b][0] in ('E', 'ld', 'hv', 'jm'): b = AT[b][1]
    return b == ai.this and base != ai.this and over(*heapof(base), D)

def restored(ai, st, h):
    """everything the voltage needs, the remembered value and its flag have their value of the entry"""
    if 'mem' in st.ps: return False           # a member was changed, nothing says it was given back its old state
    fl = ai.read(st, ai.this, h.flag[0])
    ch = [c for c in ai.changed(st, ai.this) if over(c[0], c[1], h.D) or over(c[0], c[1], h.cache)]
    if any(inheap(ai, b, h.D) and st.mem[b].cells for b in st.mem): return False
    return not ch and fl == ai.default(ai.this, h.flag[0])

def reads(ctx, P, F, cls, flag):
    """fields read by V() on the way that computes the voltage"""
    class HD(Hooks):
        loads = True; K = 16
        def init(s, ai, st):
            if flag: o = st.obj(ai.this, True); o.cells[flag[0]] = (ZERO, 1)
    a = ctx.ai(F, P, HD(), cls, loops=True); L = Loops(a)
    R = {}
    def add_(off, sz, I):
        if flag and off == flag[0]: return
        R.setdefault((off, off + sz), F.loc(I))
    for I, st, p in a.loadsites:
        if p[1] == a.this:
            if is_const(p[2]): add_(int(cval(p[2])), I['sz'], I)
            else:
                k = int(dict(p[2][1]).get((), 0.0)); lo, hi = a.extent(a.this, k)
                x = L.norm(p[2]); c = L.coverage(scale(x, 1.0 / I['sz']), F.blk[I['id']]) if x is not None and L.loop_of_kappa(x) else None
                if c and all(is_const(u) and is_const(v) for u, v in [y[:2] for y in c]): lo, hi = min(cval(y[0]) for y in c) * I['sz'], max(cval(y[1]) for y in c) * I['sz']
                add_(lo, hi - lo, I)
        else:
            b = p[1]
            while AT[b][0] in ('E', 'ld'): b = AT[b][1]
            if b == a.this: lo, hi = heapof(p[1]); add_(lo, hi - lo, I)
    for I, st, args in a.sites:
        for x in args:
            if x[0] == 'ptr' and x[1] == a.this and is_const(x[2]) and x[2] != ZERO and not nothrow(I.get('dem') or ''):
                lo, hi = a.extent(a.this, int(cval(x[2]))); add_(max(lo, int(cval(x[2]))), hi - max(lo, int(cval(x[2]))), I)
    W = {}
    for e in a.exits:
        if e['kind'] == 'ret':
            for lo, hi, k in a.changed(e['st'], a.this): W[(lo, hi)] = k
    return R, W, a

def run(ctx):
    ctx.rule = ('remembering classes = classes whose V() returns a field under a flag; D = fields (and memory they own) read by V() when the flag is unset; every exit, normal or by error, of every other member function has: flag unset, or '
                'D unchanged since entry or since the last call of V() with the flag as V() left it, or D, remembered value and flag all equal to their entry values; and V() is never called with D changed and the flag possibly set. '
                'Series module: the members are part of D, every call that can change a member counts as a change')
    ctx.assume = ['references handed out by getStateObj/viewStates/getSUs are outside the operations of the unit', 'stream output and string handling do not change a unit', 'allocation does not fail']
    spm(ctx); pack(ctx)

def member_functions(ctx, classes, skip):
    r = []
    for f in ctx.find(r'^(?:[\w:<>*&, ]+ )?slide::(%s)::~?[\w]+\(' % '|'.join(classes)):
        d = f['dem']; n = re.search(r'slide::(\w+)::(~?\w+)\(', d)
        if n.group(2) == n.group(1) or n.group(2).startswith('~') or n.group(2) in skip or '$_' in d: continue
        r.append((n.group(1), n.group(2), f['name'], d))
    return r

def judge(ctx, n, a, F, P, cls, h, flag):
    for I, f in h.stale:
        ctx.violation(n + ' stale', '%s asks for the voltage at %s after it changed something the voltage depends on, with the remembered value possibly still marked valid' % (n, F.loc(I)), F.loc(I))
    for e in a.exits:
        st = e['st']; fl = a.read(st, a.this, flag[0]); where = F.loc(e['I']); nm = n + ' ' + e['kind']
        iv = a.ival(st, fl)
        if iv == (0, 0) or 'chg' not in st.ps: ctx.ok(nm); continue
        if restored(a, st, h): ctx.ok(nm); continue
        ch = sorted({P.fname(cls, int(c[0])) if c[0] > -1e9 else 'the object' for c in a.changed(st, a.this) if over(c[0], c[1], h.D)})
        if h.unk and fl == a.default(a.this, flag[0]) and not ch: ctx.undecided(nm, 'effect of %s' % h.unk[0][1][:80]); continue
        ctx.violation(nm, '%s can end (%s, %s) with %s changed and the remembered voltage still marked valid' % (n, 'by error' if e['kind'] == 'throw' else 'normally', where, ', '.join(ch[:6]) or 'members'), where)

def spm(ctx):
    cls = 'slide::Cell_SPM'; m = CELLS['Cell_SPM']
    vs = ctx.impl('Cell_SPM', 'V')
    P0 = ctx.load([dict(name='V', cls=m, fn=vs)]); F = P0.fn('V')
    flag = P0.field(cls, 'Vcell_valid')
    if flag is None:
        # any bool field that guards a return
        ctx.undecided('Cell_SPM::V', 'flag of the remembered voltage not found'); return
    R, W, a0 = reads(ctx, P0, F, cls, flag)
    cache = tuple((lo, hi) for lo, hi in W if lo != flag[0])
    D = tuple(x for x in R if x not in cache)
    ctx.check('Cell_SPM::V depends', len(D) >= 20, 'only %d fields are read by V()' % len(D), F.loc(F.blocks[0][0]))
    # V itself
    a = ctx.ai(F, P0, H(D, cache, flag), cls)
    fl0 = a.default(a.this, flag[0]); seen = 0
    for e in a.exits:
        if e['kind'] != 'ret': continue
        st = e['st']; fl = a.read(st, a.this, flag[0]); hit = a.query(st, rel(fl0, ZERO, EQ, 7)) is False
        others = [c for c in a.changed(st, a.this) if not any(c[0] >= lo and c[1] <= hi for lo, hi in cache) and c[0] != flag[0]]
        ctx.check('V keeps the cell', not others, 'V() changes %s' % [P0.fname(cls, int(c[0])) for c in others], F.loc(e['I']))
        if hit:
            seen += 1
            ctx.check('V hit', a.val and any(same_(e['val'], a.read(st, a.this, lo)) for lo, hi in cache) and fl == fl0, 'V() with a valid remembered value returns %s' % show(e['val']), F.loc(e['I']))
        elif a.ival(st, fl) != (0, 0):
            ctx.check('V miss', any(same_(e['val'], a.read(st, a.this, lo)) for lo, hi in cache), 'V() marks its remembered value valid but returns something else (%s)' % show(e['val'])[:80], F.loc(e['I']))
    if not seen: ctx.undecided('Cell_SPM::V', 'V() has no path that returns a remembered value')
    fs = member_functions(ctx, ['Cell_SPM', 'Cell', 'StorageUnit'], {'V'})
    names = {f[1] for f in fs if f[0] == 'Cell_SPM'}
    roots = []; seenr = set()
    virt = set(ctx.vtabs().get(m, []))
    for c, meth, sym, d in fs:
        if c != 'Cell_SPM' and meth in names and sym not in virt: continue
        if d.endswith(' const'): continue
        if sym in seenr: continue
        seenr.add(sym); roots.append(dict(name='Cell_SPM::' + meth + '@' + sym, cls=m, fn=sym))
    for conf in ctx.confs():
        rr = roots if not conf else [r for r in roots if re.search(r'::(thermalModel\w*|timeStep_CC|dState_thermal|dState_degradation|setT)@', r['name'])]
        P = ctx.load(rr, never=['^slide::Cell_SPM::V\\(\\)'], conf=conf)
        for r in rr:
            F = P.fn(r['name']); n = r['name'].split('@')[0] + (' T_MODEL=' + conf[0][1] if conf else '')
            if F is None or F.this is None: continue
            h = H(D, cache, flag, cls, 'slide::Cell_SPM::V()')
            a = ctx.ai(F, P, h, cls, loops=False)
            judge(ctx, n, a, F, P, cls, h, flag)

def same_(x, y):
    from vf.interp import same
    return same(x, y)

def mutators(ctx):
    """virtual methods that change something in a cell other than what it remembers"""
    ab = ctx.vtabs()['N5slide11StorageUnitE']; mut = set(); qry = set()
    sig = {}
    for k, v in {**CELLS}.items():
        rs = []
        for s in ctx.vtabs()[v]:
            d = ctx.dems().get(s, ''); mm = re.search(r'::(\w+)\(', d)
            if mm and '~' not in d and mm.group(1) not in ('copy', 'storeData', 'writeData'): rs.append(dict(name=mm.group(1), cls=v, fn=s, dem=d))
        P = ctx.load([{k2: r[k2] for k2 in ('name', 'cls', 'fn')} for r in rs])
        fl = P.field('slide::Cell_SPM', 'Vcell_valid') if k == 'Cell_SPM' else None
        FV = P.fn('V'); R, W, _ = reads(ctx, P, FV, 'slide::' + k, fl)
        D = tuple(x for x in R if x not in W)
        for r in rs:
            if r['dem'].endswith('const'): qry.add(r['name']); continue
            F = P.fn(r['name'])
            if F is None: continue
            cls = 'slide::' + k; a = ctx.ai(F, P, Hooks(), cls); bad = False
            for e in a.exits:
                for lo, hi, t in a.changed(e['st'], a.this):
                    if over(lo, hi, D): bad = True
            (mut if bad else qry).add(r['name'])
    return mut, qry - mut

def pack(ctx):
    cls = 'slide::Module_s'; m = PACKS['Module_s']
    vs = ctx.impl('Module_s', 'V')
    P0 = ctx.load([dict(name='V', cls=m, fn=vs)]); F = P0.fn('V'); flag = P0.field(cls, 'Vmodule_valid')
    if flag is None: ctx.undecided('Module_s::V', 'flag not found'); return
    mut, qry = mutators(ctx)
    mut |= {'setSUs', 'setRcontact'}
    ctx.check('members', {'setCurrent', 'timeStep_CC', 'setStates', 'setT'} <= mut, 'mutating operations of cells not recognised: %s' % sorted(mut))
    R, W, a0 = reads(ctx, P0, F, cls, flag)
    cache = tuple((lo, hi) for lo, hi in W if lo != flag[0])
    D = tuple(x for x in R if x not in cache)
    a = ctx.ai(F, P0, SplitPhi(), cls, loops=True); fl0 = a.default(a.this, flag[0])
    for e in a.exits:
        if e['kind'] != 'ret': continue
        st = e['st']; fl = a.read(st, a.this, flag[0]); hit = a.query(st, rel(fl0, ZERO, EQ, 7)) is False
        if hit or (a.ival(st, fl) != (0, 0) and fl != fl0):
            ctx.check('Module_s::V ' + ('hit' if hit else 'miss'), any(same_(e['val'], a.read(st, a.this, lo)) for lo, hi in cache), 'Module_s::V() returns %s while its remembered value is marked valid' % show(e['val'])[:80], F.loc(e['I']))
    fs = member_functions(ctx, ['Module_s', 'Module', 'StorageUnit'], {'V'})
    names = {f[1] for f in fs if f[0] == 'Module_s'}; virt = set(ctx.vtabs().get(m, []))
    roots = [dict(name='Module_s::' + meth + '@' + sym, cls=m, fn=sym) for c, meth, sym, d in fs if not (c != 'Module_s' and meth in names and sym not in virt) and not d.endswith(' const')]
    for conf in ctx.confs():
        rr = roots if not conf else [r for r in roots if re.search(r'::(thermalModel\w*|timeStep_CC|setT)@', r['name'])]
        P = ctx.load(rr, never=['^slide::Module_s::V\\(\\)'], opaque=[r'slide::linInt', r'slide::run<', r'slide::CoolSystem'], conf=conf)
        for r in rr:
            F = P.fn(r['name']); n = r['name'].split('@')[0] + (' T_MODEL=' + conf[0][1] if conf else '')
            if F is None or F.this is None: continue
            if n.startswith(('Module_s::thermalModel_',)): continue       # helpers of thermalModel, judged inlined there
            h = H(D, cache, flag, cls, 'slide::Module_s::V()', mut)
            a = ctx.ai(F, P, h, cls)
            judge(ctx, n, a, F, P, cls, h, flag)
