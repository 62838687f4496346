"""C02: a refused set-point leaves every unit of a pack unchanged."""
TECH = 'typestate of member refusals (which member refused, which members were given their old value back) on top of value numbering with proved index ranges'
NOTE = 'Every call in a pack operation that sets a member is classified as attempt or restoration by the origin of its value (loaded from a save array filled from the same member before the attempt); on every path after a refusal a restoration range that includes every changed member must be run and the refusing status returned.'
from vf.core import *
from vf.interp import Hooks, readonly
from vf.loops import method, Loops
from vf.members import Members
from vf import term as T

SET = {'setCurrent': 'I', 'setStates': 'getStates', 'setVoltage': None}
MUT = re.compile(r'(set|timeStep|thermal|control|reset|update|redistribute|validState|getAndReset)')
class Plain(Hooks):
    K = 24
    def call(self, ai, st, I, callee, args):
        if method(callee) in SET and args and is_member(ai, args[0]): return [(st, atom(('call', I['id'], callee)), 'ret')]
        return None
    def may_throw(self, ai, st, I, callee): return False

class H(Hooks):
    K = 96
    def __init__(self, kind, BAD): self.kind = kind; self.BAD = BAD; self.capped_ = False
    def may_throw(self, ai, st, I, callee): return False
    def joinps(self, a, b): return a
    def enter(self, ai, st, src, blk):
        if blk in ai.F.loops and any(p[0] == 'ref' for p in st.ps) and ('l', blk) not in st.ps: st.ps = st.ps + (('l', blk),)
    def call(self, ai, st, I, callee, args):
        k = self.kind.get(I['id'])
        if k is None:
            m = method(callee)
            if MUT.match(m) and args and is_member(ai, args[0]) and not readonly(callee) and not any(p[0] == 'ref' for p in st.ps) and ('mod', I['id']) not in st.ps: st.ps = tuple(sorted(st.ps + (('mod', I['id']),)))
            return None
        t = atom(('call', I['id'], callee))
        if k == 'restore':
            if any(p[0] == 'ref' for p in st.ps) and ('c', I['id']) not in st.ps: st.ps = st.ps + (('c', I['id']),)
            return [(st, t, 'ret')]
        if any(p[0] == 'ref' for p in st.ps): return [(st, t, 'ret')]
        out = [(x, t, 'ret') for x in ai.assume(st, rel(t, const(self.BAD), LT, 7), True)]
        for x in ai.assume(st, rel(t, const(self.BAD), GT | EQ, 7), True):
            x = x.clone(); x.ps = x.ps + (('ref', I['id']),); out.append((x, t, 'ret'))
        return out

def is_member(ai, r):
    p = toptr(r); x = AT[p[1]]
    return x[0] in ('E', 'ld', 'hv', 'jm', 'ldx', 'call', 'j') and p[1] != ai.this

OPS = {'Module_s': ['setCurrent', 'setStates', 'setVoltage'], 'Module_p': ['setCurrent', 'setStates', 'setVoltage', 'redistributeCurrent'], 'Battery': ['setCurrent', 'setStates', 'setVoltage']}

def run(ctx):
    ctx.rule = ('after a member refuses (status >= VMIN_violation) every path to a return passes a loop that gives every member changed so far (index range proved) the value saved from the same member before it was changed, '
                'changes nothing else of the pack and returns the status of the refusing member')
    ctx.assume = ['a member that refuses is itself unchanged (C01, and this property one level down)', 'giving a member its own old value back succeeds', 'members do not change the member vector of their owner']
    PP = {}
    for c, ms in OPS.items():
        rs = [r for r in ctx.roots(c, ms) if 'StorageUnit::' not in ctx.dems().get(r['fn'], '')]
        if c == 'Battery': P = ctx.load(rs, opaque=[r'slide::linInt', r'slide::Module::', r'slide::free::setVoltage_iter'], force=[r'^slide::Battery::'])
        else: P = ctx.load(rs, opaque=[r'slide::linInt', r'setVoltage_iterative'])
        for r in rs:
            F = P.fn(r['name'])
            if F is None: ctx.undecided(r['name'], 'not found'); continue
            one(ctx, P, F, c, r['name'])

def one(ctx, P, F, c, n):
    cls = 'slide::' + c
    BAD = P.enum('slide::Status').get('VMIN_violation', 3) if 'slide::Status' in P.classes else 3
    a = ctx.ai(F, P, Plain(), cls, loops=True)
    sites = {}
    for I, st, args in a.sites:
        m = method(I.get('dem') or '')
        if m in SET and args and is_member(a, args[0]): sites.setdefault(I['id'], []).append((I, st, args))
    if not sites:
        if n.endswith('setVoltage'): ctx.ok(n + ' sets no member itself', 'delegates to the iterative setCurrent'); return
        ctx.undecided(n, 'no call that sets a member found'); return
    mem = Members(ctx, F, P, cls, a, 'SUs', 'cells' if c == 'Battery' else None)
    L = mem.L
    info = {}
    for i, S in sites.items():
        I, st, args = S[0]; m = method(I['dem']); ctx.analysed['call_sites'] += 1
        ad = {mem.receiver(s[1], s[2][0]) for s in S}
        if len(ad) != 1 or None in ad: ctx.undecided(n, 'receiver at %s not understood' % F.loc(I)); return
        ad = next(iter(ad))
        idx = ZERO if mem.kind == 'single' else scale(sub(ad, mem.begin), 0.125)
        k = classify(mem, a, F, I, S, m, idx)
        info[i] = dict(I=I, m=m, idx=idx, kind=k[0], save=k[1:], blk=F.blk[i])
    att = {i for i, d in info.items() if d['kind'] == 'attempt'}
    if not att: ctx.undecided(n, 'no attempt found'); return
    h = H({i: d['kind'] for i, d in info.items()}, BAD)
    b = ctx.ai(F, P, h, cls, loops=True)
    nref = set()
    vm = [P.field(cls, f) for f in ('Vmodule', 'Vmodule_valid')]
    for e in b.exits:
        refs = [p[1] for p in e['st'].ps if p[0] == 'ref']
        if not refs or e['kind'] != 'ret': continue
        s = refs[0]; d = info[s]; loc = F.loc(d['I']); nref.add(s)
        t = atom(('call', s, d['I']['dem']))
        v = e['val']; lo, hi = b.ival(e['st'], v)
        if v == t: ctx.ok('%s returns the refusing status of %s' % (n, loc))
        elif hi < BAD: ctx.violation(n + ' hides a refusal', '%s: when the member set at %s refuses, %s returns the success-like status %s at %s' % (n, loc, n, show(v), F.loc(e['I'])), loc)
        elif lo >= BAD and is_const(v): ctx.violation(n + ' other status', '%s: when the member set at %s refuses, another status (%s) is returned at %s' % (n, loc, show(v), F.loc(e['I'])), loc)
        elif any(AT[x][0] == 'call' and x != as_atom(t) for x in T.atoms(v)): ctx.violation(n + ' loses the refusal', '%s: the refusal of the member set at %s is not returned but %s (%s)' % (n, loc, show(v), F.loc(e['I'])), loc)
        else: ctx.undecided(n, 'status %s returned after a refusal at %s' % (show(v), F.loc(e['I'])))
        for p in e['st'].ps:
            if p[0] == 'mod': ctx.violation(n + ' changed by ' + method(F.ins[p[1]]['dem']), '%s has already called %s (%s) when the member set at %s refuses' % (n, method(F.ins[p[1]]['dem']), F.loc(F.ins[p[1]]), loc), loc)
        ch = [x for x in b.changed(e['st'], b.this) if not any(f and f[0] <= x[0] and x[1] <= f[0] + f[1] for f in vm) and x[0] > -1e9]
        if ch: ctx.violation(n + ' own state', '%s keeps a changed %s when the member set at %s refuses' % (n, ', '.join(P.fname(cls, int(x[0])) for x in ch), loc), loc)
        for base, o in e['st'].mem.items():
            if base != b.this and AT[base][0] in ('E', 'hv', 'ld') and any(not_same(b, base, x, t) for x, (t, q) in o.cells.items()):
                ctx.violation(n + ' own part', '%s has already changed a part of the pack itself when the member set at %s refuses' % (n, loc), loc)
        need = changed_before(mem, F, info, s)
        if need == 'none': ctx.ok(n + ' nothing to restore'); continue
        if need is None: ctx.undecided(n, 'members changed before %s not understood' % loc); continue
        loops = {p[1] for p in e['st'].ps if p[0] == 'l'}; calls = {p[1] for p in e['st'].ps if p[0] == 'c'}
        best = None
        for i, r in info.items():
            if r['kind'] != 'restore': continue
            hl = F.loopof[r['blk']]
            if not (hl and hl['header'] in loops or not hl and i in calls): continue
            q = covers(mem, F, info, s, i, need)
            if q == 'ok': best = 'ok'; break
            best = q or best
        if best == 'ok': ctx.ok('%s restores after %s' % (n, loc))
        elif best and best.startswith('?'): ctx.undecided(n, best[1:])
        else:
            wrong = [r for r in info.values() if r['kind'] == 'attempt' and r['save'] and isinstance(r['save'][0], str) and F.loopof[r['blk']] and F.loopof[r['blk']]['header'] in loops]
            why = best or next((r['save'][0] for r in wrong if r['save'][0]), None) or 'no member is given its old value back'
            ctx.violation(n + ' not restored after ' + d['m'], '%s: when the member set at %s refuses, %s (return at %s)' % (n, loc, why, F.loc(e['I'])), loc)
    for s in att - nref:
        if b.capped: ctx.undecided(n, 'paths merged')
        else: ctx.undecided(n, 'no return after a refusal at %s' % F.loc(info[s]['I']))

def not_same(b, base, x, t): return topoly(t) != topoly(b.default(base, x))

def classify(mem, a, F, I, S, m, idx):
    """('restore', save info) or ('attempt', why it is no restoration)"""
    L = mem.L
    if m == 'setStates':
        p = toptr(S[0][2][1])
        if AT[p[1]][0] != 'alloca' or p[2] != ZERO: return ('attempt', None)
        v = span_source(mem, a, F, I, p[1])
        if v is None: return ('attempt', None)
        src = save_vector(mem, a, F, v, I)
        if src != 'all': return ('attempt', 'its members get states back that were not all saved in order before (%s)' % src)
        return ('restore', 'vector')
    ts = {s[2][1] for s in S if s[2][1][0] == 'P'}
    vals = set()
    for t in ts:
        x = AT[as_atom(t)] if as_atom(t) is not None else None
        if not x or x[0] not in ('ld', 'ldx', 'undef', 'hv', 'E') or AT[x[1]][0] not in ('alloca', 'new', 'hv'): return ('attempt', None)
        off = x[2] if isinstance(x[2], tuple) else const(x[2])
        vals.add((x[1], L.norm(off)))
    if len(vals) != 1: return ('attempt', None)
    base, off = next(iter(vals))
    n_ = 0; res = []; why = None
    for J, st, p, val in a.stores:
        if p[1] != base: continue
        n_ += 1
        so = L.norm(p[2]); v = L.norm(topoly(val)); si = scale(so, 0.125)
        at_ = as_atom(v); x = AT[at_] if at_ is not None else None
        if not (x and x[0] == 'm' and x[1] == SET[m]):
            why = 'the values given back (%s) are not the old ones' % F.loc(J); break
        who = scale(sub(x[2], mem.begin), 0.125)
        if sub(who, si)[1]:
            why = 'the value saved for a member at %s is the one of another member' % F.loc(J); break
        if (J['id'], si) not in [(q[0]['id'], q[1]) for q in res]: res.append((J, si))
    if not n_: return ('attempt', 'no saved value is given back')
    if why: return ('attempt', why)
    ri = scale(off, 0.125)
    if sub(ri, idx)[1]: return ('attempt', 'a member is given the old value of another member (%s)' % F.loc(I))
    return ('restore', res)

def span_source(mem, a, F, I, base):
    """vector (alloca) whose beginning a local span pointed to before its members consumed it"""
    r = set()
    for J, st, p, val in a.stores:
        if p[1] == base and p[2] == ZERO:
            q = toptr(val); x = AT[q[1]]
            if q[2] != ZERO: return None
            r.add(x[1] if x[0] in ('hv', 'ld', 'E', 'jm') else None)
    return next(iter(r)) if len(r) == 1 else None

def save_vector(mem, a, F, v, I):
    """'all' when a vector was filled by getStates of every member in order before anything else"""
    g = []; other = []
    for J, st, args in a.sites:
        if not any(x[0] == 'ptr' and x[1] == v for x in args): continue
        (g if method(J.get('dem') or '') == 'getStates' else other).append((J, st, args))
    ids = {J['id'] for J, st, args in g}
    if len(ids) != 1: return 'saved by %d calls' % len(ids)
    J, st, args = g[0]
    if not F.dom_ins(J['id'], I['id']) and not (F.loopof[F.blk[J['id']]] and F.dominates(F.loopof[F.blk[J['id']]]['header'], F.blk[I['id']])): return 'saved after the change'
    if len(args) > 1 and args[0][0] == 'ptr' and args[0][1] == a.this: return 'all'
    r = mem.range(J, st, args[0])
    return r

def changed_before(mem, F, info, s):
    """'all', 'none' or ('upto', idx) / ('downto', idx): members that may have been changed when attempt s refuses"""
    d = info[s]
    if mem.kind == 'single': return 'none'
    hs = sorted(set(mem.L.loop_of_kappa(d['idx'])))
    loops = [h for h, l in F.loops.items() if d['blk'] in l['body']]
    before = [i for i, r in info.items() if r['kind'] == 'attempt' and i != s and d['blk'] in F.reach(r['blk']) ]
    if before or len(loops) > 1: return 'all'
    if not loops: return 'none' if is_const(d['idx']) else None
    if len(hs) != 1: return None
    k = A(('kappa', hs[0])); co = dict(d['idx'][1]).get(((k, 1),), 0)
    cov = mem.L.coverage(d['idx'], d['blk'])
    if not cov: return None
    return ('upto', cov[0][0], d['idx']) if co == 1 else ('downto', cov[0][1], d['idx'])

def covers(mem, F, info, s, r, need):
    """'ok', '?why not understood' or why the restoration misses members"""
    d, x = info[s], info[r]
    loc = F.loc(x['I'])
    hl = F.loopof[x['blk']]
    hs = sorted(h for h in set(mem.L.loop_of_kappa(x['idx'])) if hl and h == hl['header'])
    if not hs: return 'only one member is given its old value back (%s)' % loc if is_const(x['idx']) else '?restored member at %s' % loc
    h = hs[0]
    if not mem.L.every_iteration(h, x['blk']): return 'not every member is given its old value back (%s)' % loc
    cov = mem.L.coverage(x['idx'], x['blk'], h)
    if not cov: return '?range of the restoration at %s' % loc
    e = mem.escape(h)
    if e: return 'the restoration can be left early (%s)' % e
    lo, hi = cov[0]
    if need == 'all': clo, chi = ZERO, mem.n
    elif need[0] == 'upto': clo, chi = need[1], need[2]
    else: clo, chi = add(need[2], ONE), need[1]
    # every changed member is in [lo, hi)
    for a_, b_, what in ((lo, clo, 'from'), (chi, hi, 'to')):
        q = sub(b_, a_)
        if is_const(q):
            if cval(q) < 0: return 'only members %s to %s (exclusive) get their old value back (%s) although members %s to %s have changed' % (show(lo), show(hi), loc, show(clo), show(chi))
        elif not le(a_, b_, mem): return ('?' if False else '') + 'members %s to %s get their old value back (%s), which need not include all of %s to %s' % (show(lo), show(hi), loc, show(clo), show(chi))
    if x['save'][0] == 'vector':
        co = dict(x['idx'][1]).get(((A(('kappa', h)), 1),), 0)
        if co != 1: return 'the members consume their old states in another order than they were saved (%s)' % loc
        if lo != ZERO: return 'the old states are not given back from the first member on (%s)' % loc
        return 'ok'
    best = '?saved members'
    attempts = [r_ for r_ in info.values() if r_['kind'] == 'attempt']
    for J, si in x['save'][0]:
        sb = F.blk[J['id']]
        sl = [q for q, l in F.loops.items() if sb in l['body']]; al = [q for q, l in F.loops.items() if d['blk'] in l['body']]
        common = set(sl) & set(al)
        if not common:
            if any(sb in F.reach(r_['blk']) for r_ in attempts): return 'the values given back were saved after members had changed (%s)' % F.loc(J)
            c2 = mem.L.coverage(si, sb)
            if not c2: continue
            slo, shi = c2[0]
        else:
            if len(common) > 1: return 'the values given back are saved again after members have changed (%s)' % F.loc(J)
            if not F.dom_ins(J['id'], d['I']['id']): return 'the values given back were saved after the attempt (%s)' % F.loc(J)
            c2 = mem.L.coverage(si, sb)
            if not c2 or is_const(si) or sub(si, d['idx'])[1]: continue
            slo, shi = c2[0][0], add(si, ONE)
            k = A(('kappa', next(iter(common)))); co = dict(si[1]).get(((k, 1),), 0)
            if co == -1: slo, shi = si, c2[0][1]
        r = 'ok'
        for a_, b_ in ((slo, lo), (hi, shi)):
            q = sub(b_, a_)
            if is_const(q) and cval(q) < 0 or not is_const(q) and not le(a_, b_, mem): r = 'members whose value was never saved are given one (%s)' % loc
        if r == 'ok' or best[0] == '?': best = r
    return best

def le(a, b, mem):
    """a <= b for member positions: 0 <= an index < n"""
    if a == ZERO: return True
    if b == mem.n: return True
    return False
