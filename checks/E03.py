"""E03: a failed operation is never taken for a success."""
TECH = 'path-sensitive status-flow analysis: every result of a status-returning call is a pending obligation which the path has to discharge (known not failing, returned, or part of the returned worst status) before it reports success'
NOTE = ('Every function of the library that calls a status-returning operation is analysed. Inside status-returning functions the obligation is decided per path; functions which cannot return a status have to look at each result (compare it, not only print it), '
        'and may drop one only on paths that end in an error. What they do after looking (stop, or report and go on) is their documented choice.')
from vf.core import *
from vf.interp import Hooks
from vf.loops import method

BAD = 3; REFUSED = -2      # Invalid_Vset: the operation was refused
SKIP = r'paperCode|main\.cpp|examples|benchmark'
# documented recovery: whatever the constant-current phase returns, the constant-voltage phase is tried and its status is the answer
RECOVER = {'CV': 'CC'}

def strip(d):
    while True:
        e = re.sub(r'<[^<>]*>', '', d)
        if e == d: return d
        d = e

def nothrow(c):
    from vf.interp import nothrow as f
    return f(c)

class H(Hooks):
    K = 64
    def __init__(self, N): self.N = N; self.site = {}
    def init(self, ai, st): st.ps = frozenset()
    def joinps(self, a, b): return a | b
    def may_throw(self, ai, st, I, callee): return not nothrow(callee)
    def havoc(self, ai, st, I, callee, args):
        if 'slide::' in callee or callee.startswith('vcall:'): return [a[1] for a in args if a[0] == 'ptr' and AT[a[1]][0] == 'alloca']
        return None
    def term(self, p): return atom(('call', p, self.site[p])) if isinstance(p, int) else atom(p)
    def fine(self, ai, st, p): return ai.ival(st, self.term(p))[1] < BAD
    def clean(self, ai, st):
        if st.ps: st.ps = frozenset(p for p in st.ps if not self.fine(ai, st, p))
    def enter(self, ai, st, src, blk): self.clean(ai, st)
    def leave(self, ai, st, src, blk):
        L = ai.F.loops.get(blk); self.clean(ai, st)
        if L is None or src not in L['body'] or not st.ps: return
        ops = []
        for I in ai.F.blocks[blk]:
            if I['op'] != 'phi': break
            if I['ty'] != 'i8': continue
            for v, pb in I['in']:
                if pb == src: ops.append((('j', blk, I['id']), topoly(ai.val(st, v))))
        out = set()
        for p in st.ps:
            t = self.term(p)
            c = next((j for j, v in ops if covers(ai, st, v, t)), None)
            out.add(c if c is not None else p if isinstance(p, int) else ('lost',) + p[1:])
        st.ps = frozenset(out)
    def call(self, ai, st, I, callee, args):
        if I.get('ty') != 'i8' or not self.N.search(strip(callee)): return None
        r = RECOVER.get(method(callee)); self.site[I['id']] = callee
        st.ps = frozenset(p for p in st.ps if not (r and isinstance(p, int) and method(self.site[p]) == r)) | {I['id']}
        return None

def covers(ai, st, v, t):
    """status v is at least as bad as status t"""
    if v == t or ai.ival(st, sub(v, t))[0] >= 0: return True
    x = as_atom(v)
    return x is not None and AT[x][0] == 'fn' and AT[x][1] == 'max' and any(covers(ai, st, topoly(y), t) for y in AT[x][2:])

def top(a, st, v, assumed=frozenset()):
    """upper bound of a status; a status carried round a loop is bounded by what every edge into the loop gives it"""
    hi = a.ival(st, v)[1]; x = as_atom(v)
    if hi < BAD or x is None: return hi
    t = AT[x]
    if t[0] == 'fn' and t[1] in ('min', 'max'): return (min if t[1] == 'min' else max)(top(a, st, topoly(y), assumed) for y in t[2:])
    if t[0] == 'j':
        if t in assumed: return -128
        I = a.F.ins.get(t[2]); r = -128
        if I is None: return hi
        for v2, pb in I['in']:
            for s in a.edges.get((pb, t[1]), []): r = max(r, top(a, s, topoly(a.val(s, v2)), assumed | {t}))
        return min(hi, r)
    return hi

def sname(d):
    s = strip(d); m = re.search(r'((?:\w+(?:::|#))*~?(?:\w+|\$_\d+|operator\(\)))\(', s)
    x = m.group(1) if m else s
    return re.sub(r'^(vcall:)?(slide::)', '', x).replace('#', '::')

def used(F, i):
    """is the value compared, returned or combined (printing alone does not count)"""
    seen = set(); work = [i]
    U = uses(F)
    while work:
        k = work.pop()
        if k in seen: continue
        seen.add(k)
        for I in U.get(k, ()):
            o = I['op']
            if o in ('icmp', 'switch', 'ret'): return True
            if o in ('call', 'invoke'):
                d = I.get('dem') or ''
                if 'getStatusMessage' in d or 'operator<<' in d or d.startswith('llvm.'): continue
                return True
            if o == 'store': 
                return True
            work.append(I['id'])
    return False

def uses(F):
    if getattr(F, '_u3', None) is None:
        F._u3 = {}
        for b in F.rpo:
            for I in F.blocks[b]:
                for x in operands(I): F._u3.setdefault(x, []).append(I)
    return F._u3

def operands(I):
    r = set()
    def g(x):
        if isinstance(x, dict):
            for k, y in x.items():
                if k not in ('id',): g(y)
        elif isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] in ('i', 'v', 'r') and isinstance(x[1], int): r.add(x[1])
            for y in x: g(y)
    for k, v in I.items():
        if k not in ('id', 'b', 'k', 'line', 'loc', 'dem', 'callee'): g(v)
    return r

def run(ctx):
    ctx.rule = ('each result of a status-returning call of the library is an obligation: a status function may return a value that does not report a failure only on paths where every result obtained so far is known not to be failing (or is part of the worst status returned, or the constant-current phase of the CC/CV function, whose documented recovery is the CV phase); '
                'a result which is dropped is allowed only on paths that report a failure or end in an error; other functions compare every result')
    ctx.assume = ['Status values of 3 and above are failures (checked by G04)', 'output to streams does not fail']
    SF = [f for f in ctx.find(r'slide::') if f.get('ret') == 'Status']
    names = set(); sf = set()
    for f in SF:
        m = re.search(r'(~?\w+|operator\(\))\(', strip(f['dem']))
        if m: names.add(m.group(1)); sf.add(f['name'])
    names.discard('operator()')
    if not names: ctx.undecided('status functions', 'none found'); return
    alt = '|'.join(sorted(names))
    N = re.compile(r'(?:slide::|#)(?:\w+(?:::|#))*(?:%s)\(' % alt)
    lib = [f for f in ctx.find(r'slide::') if 'src/' in f.get('file', '') and not re.search(SKIP, f['file']) and not re.search(r'^(void |auto |bool |double )?std::|vfw_', f['dem'])]
    R = ctx.load([dict(name='%d' % i, cls='', fn=f['name']) for i, f in enumerate(lib)], force=['nothing_at_all'], opaque=['.*slide::'])
    roots = {}; callers = {}; sites = {}
    for i, f in enumerate(lib):
        F = R.fn('%d' % i)
        if F is None: continue
        for b in F.rpo:
            for I in F.blocks[b]:
                if I['op'] not in ('call', 'invoke'): continue
                callers.setdefault(I.get('callee') or '', set()).add(i)
                if I.get('ty') == 'i8' and N.search(strip(I.get('dem') or '')): sites.setdefault(i, []).append(I)
    isS = lambda i: lib[i]['name'] in sf and 'operator()' not in lib[i]['dem']
    todo = set(sites); judged = set()
    while todo:
        i = todo.pop()
        if i in roots: continue
        f = lib[i]; up = callers.get(f['name'], set()) - {i}
        helper = not isS(i) and not f.get('virt') and up and not re.search(r'slide::(Procedure|Cycler)::(?!\w*\$|.*operator\(\))', f['dem'])
        roots[i] = helper
        if helper or not isS(i) and up and not f.get('virt') and any(dropped(R.fn('%d' % i), N)):
            roots[i] = True
            todo |= up
    keep = [i for i in roots if not roots[i]]
    hl = {lib[i]['name'] for i in roots if roots[i]}
    spec = []
    for i in keep:
        spec.append(dict(name='%s@%d' % (sname(lib[i]['dem']), i), cls='', fn=lib[i]['name']))
    P = ctx.load(spec, never=[r'(slide::|#)([A-Za-z_0-9]+(<[^()]*>)?::)*(%s)(<[^()]*>)?\(' % alt, r'getStatusMessage', r'slide::(Cell|Module|Battery|StorageUnit|Cooling|CoolSystem)[A-Za-z_0-9<>]*::(V|getVall|getOCV|timeStep_CC|getFullID|T|storeData|writeData|validStates|Cap)\(', r'slide::(Cycler|Procedure)::(storeData|writeData|storeThroughput|checkUp|checkMod|writeThroughput)\('])
    nS = 0
    for s in spec:
        F = P.fn(s['name']); n, i = s['name'].split('@'); i = int(i)
        if F is None: ctx.undecided(s['name'], 'not loaded'); continue
        st = [I for b in F.rpo for I in F.blocks[b] if I['op'] in ('call', 'invoke') and I.get('ty') == 'i8' and N.search(strip(I.get('dem') or ''))]
        nS += len(st); ctx.analysed['call_sites'] += len(st)
        judge(ctx, F, n, isS(i), st, N)
    if not nS: ctx.undecided('status calls', 'none found')

def dropped(F, N):
    for b in F.rpo:
        for I in F.blocks[b]:
            if I['op'] in ('call', 'invoke') and I.get('ty') == 'i8' and N.search(strip(I.get('dem') or '')) and not used(F, I['id']): yield I

def judge(ctx, F, n, isS, sites, N):
    h = H(N)
    try: a = ctx.ai(F, F.prog, h, None, loops=True)
    except Exception as e: ctx.undecided(n, '%s %s' % (type(e).__name__, e)); return
    drop = {I['id'] for I in sites if not used(F, I['id'])}
    where = lambda p: F.loc(F.ins[p]) if isinstance(p, int) else F.loc(F.ins[p[2]])
    what = lambda p: sname(h.site[p]) if isinstance(p, int) and p in h.site else 'a member'
    bad = {}; und = {}
    for e in a.exits:
        if e['kind'] != 'ret': continue
        st = e['st']; v = topoly(e['val']) if isS and e['val'] is not None else None
        ps = set(st.ps)
        lo = a.ival(st, v)[0] if v is not None else None
        rep = next((p for p in ps if v is not None and h.term(p) == v), None)
        for p in ps:
            if h.fine(a, st, p): continue
            if not isS:
                if p in drop: bad.setdefault(p, (e, 'the result of %s is dropped or only printed' % what(p)))
                continue
            lost = not isinstance(p, int) and p[0] == 'lost'
            if lo >= BAD or not lost and covers(a, st, v, h.term(p)): continue
            # another failure is what is reported
            if v == const(REFUSED) or a.ival(st, v) == (REFUSED, REFUSED): continue
            # a reset after something that is reported
            if p in drop and lo >= 1 and rep is not None: continue
            hi = top(a, st, v)
            if hi < BAD or rep is not None: bad.setdefault(p, (e, 'a failure of %s is not reported: the function returns %s' % (what(p), 'the status of ' + what(rep) if rep is not None else 'a status that is no failure')))
            else: und.setdefault(p, show(v)[:80])
    for I in sites:
        k = '%s: %s at %s' % (n, sname(I.get('dem') or ''), F.loc(I)); p = I['id']
        if p in bad: ctx.violation(k, '%s (%s): %s' % (n, where(p), bad[p][1]), F.loc(I))
        elif p in und: ctx.undecided(k, 'returned status not understood: ' + und[p])
        elif p not in h.site: ctx.ok(k, 'not reached')
        else: ctx.ok(k)
    for p in set(bad) | set(und):
        if isinstance(p, int) and p in {I['id'] for I in sites}: continue
        k = '%s: loop status at %s' % (n, where(p))
        if p in bad: ctx.violation(k, '%s (%s): %s' % (n, where(p), bad[p][1]), where(p))
        else: ctx.undecided(k, und[p])
