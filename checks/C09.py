"""C09: a unit belongs to at most one pack and knows which."""
TECH = 'typestate of the request (examine every unit, refuse before anything changes, then adopt) with loop coverage of the list of units, on the abstract interpretation of setSUs and setModule; census of the callers of setParent'
NOTE = ('Decides for every length of the list and every owner of every unit that a request with a foreign unit is refused before any unit or the pack changed, and that an accepted request adopts each unit exactly once, with the owner, the number of cells and the contact resistances to match. '
        'A copy of a member keeps the name of the pack of its original (its file names are made from it); that is not a member and not part of this property.')
from vf.core import *
from vf.interp import Hooks
from vf.loops import Loops, method
from vf import term as T

VEC = r'^(?:[\w:&<> ]+ )?std::vector<.*>::(clear|push_back|emplace_back|resize|assign|insert|reserve|emplace|erase|pop_back|operator=|_M_assign_aux|_M_fill_assign)(<.*>)?\('
NEVER = [r'std::vector<.*>::(clear|push_back|emplace_back|resize|assign|insert|reserve|erase|pop_back)(<.*>)?\(', r'#?setParent\(', r'getFullID', r'getNcells', r'#?setPower\(', r'slide::(Converter|CoolSystem)', r'slide::Battery::(V|Cap|getLosses)', r'getLosses', r'getControl']

class H(Hooks):
    K = 48; collect = True
    def __init__(self, own): self.own = own
    def init(self, ai, st): st.ps = frozenset()
    def joinps(self, a, b): return a | b
    def may_throw(self, ai, st, I, callee):
        from vf.interp import nothrow
        return not nothrow(callee) and not re.search(r'setParent|getNcells|getFullID|::~|#~|getParent', callee)
    def havoc(self, ai, st, I, callee, args):
        if 'slide::' in callee or callee.startswith('vcall:'): return [a[1] for a in args if a[0] == 'ptr' and AT[a[1]][0] == 'alloca']
        m = re.match(VEC, callee)
        if m: return []
        return None
    def effect(self, ai, I, callee, args):
        if 'setParent(' in callee: return 'parent'
        m = re.match(VEC, callee)
        if m and args and args[0][0] == 'ptr' and args[0][1] == ai.this and is_const(args[0][2]):
            o = int(cval(args[0][2]))
            for n, (b, s, *_) in self.own.items():
                if b <= o < b + s: return n
        return None
    def call(self, ai, st, I, callee, args):
        e = self.effect(ai, I, callee, args)
        if e: st.ps = st.ps | {e}
        return None
    def store(self, ai, st, base, off, size, val, I):
        if base == ai.this: st.ps = st.ps | {'field'}
        elif AT[base][0] not in ('alloca', 'new', 'glob') and 'exc' not in AT[base]: st.ps = st.ps | {'other'}

def run(ctx):
    ctx.rule = ('setSUs and setModule: no path that ends in an error has changed a unit or the pack; the first change is only reached when the owner of every unit of the list was found to be nobody (or the pack itself); '
                'then every unit, exactly once: setParent(this) and taken into the member vector, which was cleared before, with one contact resistance; the number of cells is the sum over the units; nobody else but the copy functions calls setParent')
    ctx.assume = ['getNcells, setParent and output do not fail; memory is available', 'all units of the list exist (no empty pointers)', 'the list handed in is not the member vector of the pack itself']
    pack(ctx); battery(ctx); census(ctx)

def dominated_reach(F, start, ok):
    seen = set(); w = [start]
    while w:
        b = w.pop()
        if b in seen: continue
        seen.add(b)
        w += F.succ[b]
    return seen & ok

def owners(a, st, po):
    """atoms in a state that are the owner read from a unit: {atom: address of the pointer to the unit}"""
    r = {}
    def scan(x, d=0):
        if isinstance(x, tuple) and d < 14:
            if x and x[0] == 'P' and len(x) == 2:
                for at in T.atoms(x): see(at, d)
            else:
                for y in x: scan(y, d + 1)
    seen = set()
    def see(at, d):
        if at in seen: return
        seen.add(at); t = AT[at]
        if t[0] == 'p2i' :
            u = AT[t[1]]
            if u[0] == 'E' and u[2] == po: r[at] = u[1]
            if u[0] == 'ld' and is_const(u[2]) and cval(u[2]) == po: r[at] = u[1]
            see(t[1], d)
        scan(t, d + 1)
    for var in st.facts: scan(var)
    for k in st.bf.items() if hasattr(st.bf, 'items') else st.bf: scan(k)
    return r

def consistent(a, s):
    for k, v in (s.bf.items() if hasattr(s.bf, 'items') else s.bf):
        if k[0] != 'B' or k[1] not in ('and', 'or'): continue
        q = [a.query(s, x) for x in k[2:4]]
        if k[1] == 'and' and v is False and q == [True, True] or k[1] == 'or' and v is True and q == [False, False]: return False
    return True

def free(a, st, P, this):
    """the owner is nobody or the pack"""
    p = atom(P); out = a.assume(st.clone(), rel(p, ZERO, LT | GT, 7), True)
    out = [s for s in out if consistent(a, s)]
    if not out: return True
    if this is None: return False
    t = topoly(ptr_(this))
    return not any(consistent(a, x) for s in out for x in a.assume(s.clone(), rel(sub(p, t), ZERO, LT | GT, 7), True))

def ptr_(b): return ('ptr', b, ZERO)

def pack(ctx):
    n = 'Module::setSUs'; f = ctx.find(r'slide::Module::setSUs\(')
    if not f: ctx.undecided(n, 'not found'); return
    P = ctx.load([dict(name=n, cls='', fn=f[0]['name'])], never=NEVER); F = P.fn(n); cls = 'slide::Module'
    po = P.field('slide::StorageUnit', 'parent'); fs = P.field(cls, 'SUs'); fr = P.field(cls, 'Rcontact'); fn_ = P.field(cls, 'Ncells')
    if not (po and fs and fr and fn_): ctx.undecided(n, 'members not found'); return
    own = {'SUs': (fs[0], 24), 'Rcontact': (fr[0], 24)}
    a = ctx.ai(F, P, H(own), cls, loops=True); L = Loops(a); this = ptr_(a.this)
    args = [x for x in F.args if x['id'] != F.this]; pt = [x for x in args if x['ty'] == 'ptr']; sz = [x for x in args if x['ty'] == 'i64']
    if len(pt) != 1 or len(sz) != 1: ctx.undecided(n, 'arguments not understood'); return
    begin = topoly(ptr_(A(('arg', pt[0]['id'])))); size = atom(('arg', sz[0]['id']))
    # nothing changed when it is refused
    refused(ctx, a, F, n)
    # sites
    ev = {}
    for I, st, ar in a.sites:
        e = a.h.effect(a, I, I.get('dem') or '', ar)
        if e: ev.setdefault((e, method2(I)), []).append((I, st, ar))
    first = [x for v in ev.values() for x in v]
    if not any(k[0] == 'parent' for k in ev): ctx.violation(n + ' owner', '%s never tells its members who owns them' % n, ''); return
    if not any(k[0] == 'SUs' and k[1] in ('push_back', 'emplace_back') for k in ev): ctx.undecided(n + ' members', 'the member vector is not filled by push_back'); return
    effb = {F.blk[x[0]['id']] for x in first} | {F.blk[I['id']] for I, st, p, v in a.stores if p[1] == a.this}
    # every owner examined
    verdict = None; why = ''; seen = False
    for h in F.loops:
        if any(b in F.loops[h]['body'] for b in effb): continue
        lat = [s for q in F.loops[h]['latches'] for s in a.edges.get((q, h), [])]
        if not lat: continue
        cands = None
        for s in lat:
            o = owners(a, s, po[0]); seen = seen or bool(o)
            good = {}
            for P_, u in o.items():
                ad = addr(L, u)
                good[P_] = (ad, free(a, s, P_, a.this))
            cands = good if cands is None else {k: (v[0], v[1] and good[k][1]) for k, v in cands.items() if k in good}
        for P_, (ad, okf) in (cands or {}).items():
            idx = L.index(ad, begin) if ad is not None else None
            if idx is None or L.k(h) not in T.atoms(idx): continue
            if not okf: verdict = verdict or False; why = why or 'a unit which belongs to another pack passes the examination'; continue
            cov = None; bad = None
            for x, s2 in F.loops[h]['exits']:
                nn = [N for y, N in L.trip(h) if y == x]
                # the address is read before or after the test of this exit
                full = any(sub(idx, atom(L.k(h))) == ZERO and N == size for N in nn)
                if full: cov = True; continue
                if dominated_reach(F, s2, effb): bad = 'the examination of the owners can stop before the last unit' if nn or cov else 'the loop over the owners can be left early'
            if cov and not bad and all(F.dominates(h, b) for b in effb if any(F.blk[x[0]['id']] == b for x in first)): verdict = True; break
            off = sub(idx, atom(L.k(h)))
            if verdict is None or verdict is False: verdict = False; why = bad or ('not every unit of the list is examined (%d of the first are left out)' % cval(off) if is_const(off) and cval(off) else 'not every unit of the list is examined')
        if verdict is True: break
    k = n + ' examines the owner of every unit'
    if verdict is True: ctx.ok(k)
    elif verdict is False: ctx.violation(k, '%s: %s' % (n, why), F.loc(first[0][0]))
    elif not seen and not any('getParent' in (I.get('dem') or '') for I, st, ar in a.sites): ctx.violation(k, '%s accepts units without looking at their owner' % n, F.loc(first[0][0]))
    else: ctx.undecided(k, 'loop over the owners not understood')
    # adoption: each exactly once
    def each(what, sites, recv, extra=lambda ar: True, msg=''):
        res = None
        for I, st, ar in sites:
            b = F.blk[I['id']]; lp = F.loopof[b]
            if not extra(ar): ctx.violation(n + ' ' + what, '%s: %s' % (n, msg), F.loc(I)); return None
            ad = recv(ar)
            if ad is None or not lp: continue
            h = lp['header']; idx = L.index(ad, begin)
            if idx is None: continue
            cov = L.coverage(idx, b, h)
            full = any(lo == ZERO and hi == size for lo, hi in cov or [])
            ev_ = L.every_iteration(h, b) and len(F.loops[h]['exits']) == 1
            if full and ev_: ctx.ok(n + ' ' + what); return h
            why = 'only in some iterations' if full and not L.every_iteration(h, b) else 'only for %s of the units' % ('; '.join('[%s, %s)' % (show(lo), show(hi)) for lo, hi in cov) if cov else 'some')
            if cov and all(is_const(lo) or True for lo, hi in cov) or full: ctx.violation(n + ' ' + what, '%s does this %s: %s' % (n, why, what), F.loc(I)); return None
        ctx.undecided(n + ' ' + what, 'loop not understood'); return None
    pu = lambda ar: addr(L, ar[0][1]) if ar[0][0] == 'ptr' else None
    el = lambda ar: topoly(L.norm(ar[1])) if len(ar) > 1 else None
    par = [x for k_, v in ev.items() if k_[0] == 'parent' for x in v]
    hp = each('setParent(this) for every unit', par, pu, lambda ar: len(ar) > 1 and topoly(ar[1]) == topoly(this), 'a unit is given another owner than the pack')
    add_ = [x for k_, v in ev.items() if k_[0] == 'SUs' and k_[1] in ('push_back', 'emplace_back') for x in v]
    hm = each('takes every unit as a member', add_, el)
    rc = [x for k_, v in ev.items() if k_[0] == 'Rcontact' and k_[1] in ('push_back', 'emplace_back') for x in v]
    if rc and all(F.loopof[F.blk[x[0]['id']]] for x in rc):
        h = F.loopof[F.blk[rc[0][0]['id']]]['header']
        ok = any(N == size for x, N in L.trip(h, F.blk[rc[0][0]['id']])) and L.every_iteration(h, F.blk[rc[0][0]['id']]) and len({x[0]['id'] for x in rc}) == 1
        (ctx.ok if ok else lambda k_: ctx.violation(k_, '%s does not make one contact resistance per unit' % n, F.loc(rc[0][0])))(n + ' one contact resistance per unit')
    else:
        w = [x for k_, v in ev.items() if k_[0] == 'Rcontact' and k_[1] in ('resize', 'assign') for x in v]
        if w and all(topoly(ar[1]) == size for I, st, ar in w): ctx.ok(n + ' one contact resistance per unit')
        elif w: ctx.undecided(n + ' one contact resistance per unit', 'size not understood')
        elif not any(k_[0] == 'Rcontact' for k_ in ev) and not rc: ctx.violation(n + ' one contact resistance per unit', '%s leaves the contact resistances of the old members' % n, '')
        else: ctx.undecided(n + ' one contact resistance per unit', 'not understood')
    for v, hh, nm in (('SUs', hm, 'old members stay in the pack'), ('Rcontact', hm, 'old contact resistances stay')):
        cl = [x for k_, vv in ev.items() if k_[0] == v and k_[1] in ('clear', 'assign') for x in vv]
        pb = [x for k_, vv in ev.items() if k_[0] == v and k_[1] in ('push_back', 'emplace_back') for x in vv]
        if not pb: continue
        bb = F.blk[pb[0][0]['id']]
        ok = any(F.dominates(F.blk[x[0]['id']], bb) and not (F.loopof[F.blk[x[0]['id']]] and F.loopof[F.blk[x[0]['id']]]['header'] == F.loopof[bb]['header']) for x in cl) if F.loopof[bb] else False
        if ok: ctx.ok(n + ' clears ' + v)
        elif any(k_[0] == v and k_[1] not in ('push_back', 'emplace_back', 'reserve', 'clear') for k_ in ev): ctx.undecided(n + ' clears ' + v, 'not understood')
        else: ctx.violation(n + ' clears ' + v, '%s: %s' % (n, nm), F.loc(pb[0][0]))
    # the unit must not be used after it was handed over
    for I, st, ar in par:
        for J, s2, ar2 in add_:
            b1, b2 = F.blk[I['id']], F.blk[J['id']]
            if F.loopof[b1] and F.loopof[b1] is F.loopof[b2] and el(ar2) == pu(ar):
                late = b1 == b2 and I['k'] > J['k'] or b1 != b2 and F.dominates(b2, b1)
                ctx.check(n + ' owner set before the unit is handed over', not late, '%s uses a unit after it was moved away' % n, F.loc(I))
    # number of cells
    for e in a.exits:
        if e['kind'] != 'ret': continue
        v = topoly(a.read(e['st'], a.this, fn_[0])); k = n + ' number of cells'; x = as_atom(v)
        c = L.carried(x) if x is not None and AT[x][0] in ('j', 'jm') else None
        if not c or not c[1]:
            if v == atom(('E', a.this, fn_[0])): ctx.violation(k, '%s leaves the number of cells of the old members' % n, F.loc(e['I']))
            else: ctx.undecided(k, show(v)[:80])
            continue
        h, ph = c; ini = ph['init']; upd = {sub(u, v) for u in ph['upd']}
        okc = False
        if ini == {ZERO} and len(upd) == 1:
            t = as_atom(next(iter(upd)))
            if t is not None and AT[t][0] == 'call' and 'getNcells' in AT[t][2]:
                S = [s for s in a.sites if s[0]['id'] == AT[t][1]]
                ad = pu(S[0][2]); idx = L.index(ad, begin) if ad is not None else None
                cov = L.coverage(idx, F.blk[AT[t][1]], h) if idx is not None else None
                okc = any(lo == ZERO and hi == size for lo, hi in cov or []) and L.every_iteration(h, F.blk[AT[t][1]])
        if okc: ctx.ok(k)
        elif ini != {ZERO} and all(is_const(i) or any(AT[y] == ('E', a.this, fn_[0]) for y in T.atoms(i)) for i in ini): ctx.violation(k, '%s starts counting the cells at %s' % (n, ', '.join(show(i) for i in ini)), F.loc(e['I']))
        elif len(upd) >= 1 and all(is_const(u) for u in upd): ctx.violation(k, '%s counts %s per unit' % (n, ', '.join(show(u) for u in upd)), F.loc(e['I']))
        else: ctx.undecided(k, 'init %s, step %s' % (','.join(map(show, ini))[:60], ','.join(map(show, upd))[:60]))

def method2(I):
    m = re.match(VEC, I.get('dem') or '')
    return m.group(1) if m else method(I.get('dem') or '')

def addr(L, u):
    """address of the pointer through which unit u is reached"""
    t = AT[u]
    try:
        if t[0] == 'E': return L.norm(('ptr', t[1], const(t[2])))
        if t[0] == 'ld': return L.norm(('ptr', t[1], t[2]))
    except Exception: pass
    return None

def refused(ctx, a, F, n):
    k = n + ' refuses before anything changes'; bad = None; thr = 0
    for e in a.exits:
        if e['kind'] != 'throw': continue
        thr += 1
        if e['st'].ps: bad = e
    ctx.check(k, bad is None, '%s raises an error at %s after it has already changed %s' % (n, F.loc(bad['I']) if bad else '', 'a unit' if bad and ('parent' in bad['st'].ps or 'other' in bad['st'].ps) else 'the pack'), F.loc(bad['I']) if bad else '')

def battery(ctx):
    n = 'Battery::setModule'; f = ctx.find(r'slide::Battery::setModule\(')
    if not f: ctx.undecided(n, 'not found'); return
    P = ctx.load([dict(name=n, cls='', fn=f[0]['name'])], never=NEVER); F = P.fn(n); cls = 'slide::Battery'
    po = P.field('slide::StorageUnit', 'parent'); fc = P.field(cls, 'cells')
    if not (po and fc): ctx.undecided(n, 'members not found'); return
    a = ctx.ai(F, P, HB({'cells': fc}), cls, loops=True); arg = A(('arg', F.pargs[1]['id']))
    mod = toptr(ptr(('E', arg, 0)))
    bad = None
    for e in a.exits:
        if e['kind'] == 'throw' and e['st'].exc == '_ZTIi' and e['st'].ps: bad = e
    ctx.check(n + ' refuses before anything changes', bad is None, '%s raises an error at %s after it has already changed something' % (n, F.loc(bad['I']) if bad else ''), F.loc(bad['I']) if bad else '')
    own = A(('p2i', A(('E', mod[1], po[0]))))
    sp = [(I, st, ar) for I, st, ar in a.sites if 'setParent(' in (I.get('dem') or '')]
    if not sp: ctx.violation(n + ' owner', '%s never tells the module who owns it' % n, ''); return
    st_ = [(I, st) for I, st, p, v in a.stores if p[1] == a.this and is_const(p[2]) and fc[0] <= cval(p[2]) < fc[0] + fc[1]]
    same = lambda st: not a.assume(st.clone(), rel(sub(topoly(ptr_(arg)), topoly(('ptr', a.this, const(fc[0])))), ZERO, LT | GT, 7), True)   # the battery's own (empty) place handed in
    sp = [x for x in sp if not same(x[1])]; st_ = [x for x in st_ if not same(x[1])]
    for I, st, ar in sp:
        who = toptr(ar[0]); to = topoly(ar[1])
        if to != topoly(ptr_(a.this)): ctx.violation(n + ' owner', '%s gives the module another owner than the battery' % n, F.loc(I)); continue
        if who == mod: ctx.ok(n + ' owner')
        else: ctx.undecided(n + ' owner', 'receiver ' + show(ar[0])[:60])
    for I, st in st_ + [(I, st) for I, st, ar in sp]:
        k = '%s examines the owner (%s)' % (n, F.loc(I))
        if not a.assume(st.clone(), rel(atom(own), ZERO, LT | GT, 7), True): ctx.ok(k)
        elif not any('getParent' in (J.get('dem') or '') for J, s, r in a.sites): ctx.violation(k, '%s connects a module which may belong to another pack' % n, F.loc(I))
        else: ctx.undecided(k, 'examination not understood')
        k = '%s has no module yet (%s)' % (n, F.loc(I))
        c0 = atom(('p2i', A(('E', a.this, fc[0]))))
        if not a.assume(st.clone(), rel(c0, ZERO, LT | GT, 7), True): ctx.ok(k)
        else: ctx.violation(k, '%s drops the module the battery already has' % n, F.loc(I))
    for e in a.exits:
        if e['kind'] != 'ret' or same(e['st']): continue
        ctx.check(n + ' connects and adopts', 'parent' in e['st'].ps, '%s returns at %s without telling the module who owns it' % (n, F.loc(e['I'])), F.loc(e['I']))
        v = a.read(e['st'], a.this, fc[0])
        if topoly(v) == topoly(mod): ctx.ok(n + ' keeps the module')
        elif topoly(v) == atom(('p2i', A(('E', a.this, fc[0])))): ctx.violation(n + ' keeps the module', '%s returns at %s without connecting the module' % (n, F.loc(e['I'])), F.loc(e['I']))
        else: ctx.undecided(n + ' keeps the module', show(v)[:60])

class HB(H):
    def call(self, ai, st, I, callee, args):
        if 'setParent(' in callee: st.ps = st.ps | {'parent'}
        return None

def census(ctx):
    lib = [f for f in ctx.find(r'slide::') if 'src/' in f.get('file', '') and not re.search(r'paperCode|main\.cpp|examples|benchmark', f['file']) and not re.search(r'^(void |auto |bool |double )?std::|vfw_', f['dem'])]
    R = ctx.load([dict(name='%d' % i, cls='', fn=f['name']) for i, f in enumerate(lib)], force=['nothing_at_all'], opaque=['.*slide::'])
    callers = {}; who = []
    for i, f in enumerate(lib):
        F = R.fn('%d' % i)
        if F is None: continue
        for b in F.rpo:
            for I in F.blocks[b]:
                if I['op'] not in ('call', 'invoke'): continue
                callers.setdefault(I.get('callee') or '', set()).add(i)
                if 'setParent(' in (I.get('dem') or ''): who.append((i, F.loc(I)))
    good = re.compile(r'::setSUs\(|::setModule\(|::copy\(|copyModule|::setParent\(')
    def fine(i, seen=()):
        if good.search(lib[i]['dem']): return True
        up = callers.get(lib[i]['name'], set()) - {i}
        return bool(up) and i not in seen and all(fine(j, seen + (i,)) for j in up)
    for i, loc in who:
        ctx.analysed['call_sites'] += 1
        ctx.check('setParent at ' + loc, fine(i), '%s changes the owner of a unit without examining it (%s)' % (lib[i]['dem'][:80], loc), loc)
    if not who: ctx.undecided('setParent', 'no caller found')
