"""C08: every step advances time and throughput by exactly its own amount."""
TECH = 'abstract interpretation with loop-carried closed forms (per sub-step increments and trip count) and effect analysis of all other operations'
NOTE = ('The increment every sub-step adds to age, charge, energy and state of charge is derived symbolically from the loop in the time step (whatever its shape) and compared with the documented amount, as is the number of sub-steps; '
        'every other member function of the cell classes is shown not to change the counters on any path.')
from vf.core import *
from vf.interp import Hooks
from vf.loops import Loops, method, subst_atoms
from vf import term as T, pit

class H(Hooks):
    K = 16
    def call(self, ai, st, I, callee, args):
        m = method(callee)
        if m in ('V', 'dState_thermal', 'dState_degradation', 'thermalModel', 'updateDaiStress', 'updateLaresgoitiStress') and args and args[0] == ('ptr', ai.this, ZERO) or m in ('thermalModel', 'setT'):
            # shown by the second part not to change the counters
            r = [(st, atom(('call', I['id'], callee)), 'ret')]
            if I['op'] == 'invoke': r.append((st.clone(), None, 'unw'))
            return r
        return None

def fields(P, cls, sname):
    """offsets of the counters in the cell object"""
    st = P.field(cls, 'st')
    return st

def run(ctx):
    ctx.rule = ('in timeStep_CC the value of each counter on normal return equals its value at entry plus trip count times increment: age dt, charge |I dt/3600|, energy |I dt/3600 V()|, state of charge -I dt/3600/Cap(); the trip count is the number of steps; '
                'no exit of any other member function has a counter changed, except of those that store a caller\'s state vector')
    ctx.assume = ['real arithmetic', 'the number of sub-steps is not negative', 'V() called within the sub-step is the cell voltage (C06)']
    for k in CELLS:
        cell(ctx, k)
    effects(ctx)

def offs(ctx, k):
    """counters as reported by getThroughputs, current and state of charge as reported by I() and SOC()"""
    P = ctx.load(ctx.roots(k, ['getThroughputs', 'I', 'SOC', 'Cap']))
    cls = 'slide::' + k; r = {}
    for m, names in (('getThroughputs', ('time', 'Ah', 'Wh')), ('I', ('I',)), ('SOC', ('SOC',)), ('Cap', ('Cap',))):
        F = P.fn(k + '::' + m)
        if F is None: return None
        a = ctx.ai(F, P, Hooks(), cls); e = [x for x in a.exits if x['kind'] == 'ret']
        if len(e) != 1: return None
        if m == 'getThroughputs':
            s = A(('arg', F.args[0]['id']))
            for i, n in enumerate(names): r[n] = a.read(e[0]['st'], s, 8 * i)
        else: r[names[0]] = e[0]['val']
        if m == 'getThroughputs' and a.this is None: return None
    return r

def cell(ctx, k):
    n = k + '::timeStep_CC'; cls = 'slide::' + k
    q = offs(ctx, k)
    if q is None: ctx.undecided(n, 'the reported counters could not be resolved'); return
    loc = {}
    for c in ('time', 'Ah', 'Wh', 'I', 'SOC'):
        a = as_atom(q[c]) if q[c] is not None else None
        if a is None or AT[a][0] != 'E': ctx.undecided(n, '%s is not a stored quantity (%s)' % (c, show(q[c]))); return
        loc[c] = AT[a][2]
    P = ctx.load(ctx.roots(k, ['timeStep_CC']), never=[r'^slide::Cell_[A-Za-z_]+(<.*>)?::V\(\)', r'::dState_(thermal|degradation)\(', r'::thermalModel[A-Za-z_]*\(', r'::update[A-Za-z]+Stress\('], unroll=True)
    F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    a = ctx.ai(F, P, H(), cls, loops=True); L = Loops(a); th = a.this
    dt = atom(('arg', next(x['id'] for x in F.pargs[1:] if x['ty'] == 'double'))); ns = atom(('arg', next(x['id'] for x in F.pargs[1:] if x['ty'].startswith('i'))))
    ah = scale(mul(topoly(atom(('E', th, loc['I']))), dt), 1 / 3600.0)
    cap = q['Cap']
    want = {'time': dt, 'Ah': fabs(ah), 'SOC': neg(mul(ah, T.inv(cap)))}
    E = lambda c: atom(('E', th, loc[c]))
    for e in a.exits:
        if e['kind'] != 'ret': continue
        for c in ('time', 'Ah', 'SOC', 'Wh'):
            key = '%s %s' % (n, c)
            v = steps(L, a.read(e['st'], th, loc[c]))
            if v is None and c == 'Wh':
                o = stale(L, a, a.read(e['st'], th, loc[c]), mul(ah, ONE))
                if o is not None:
                    ctx.violation(key, '%s adds energy of a sub-step with a voltage (%s) that was read in an earlier sub-step, before the state changed' % (n, o), F.loc(e['I'])); continue
            if v is None: ctx.undecided(key, 'value %s not resolved' % show(a.read(e['st'], th, loc[c]))[:100]); continue
            total, incs = v        # total: sum of constants outside loops and trips*increments; incs [(trip, increment)]
            if c != 'Wh':
                d = sub(total, add(E(c), mul(ns, want[c])))
                if close(d) or pit.equal(total, add(E(c), mul(ns, want[c])), None, DOM(a, ns)): ctx.ok(key); continue
                if foreign(d, th): ctx.undecided(key, 'value differs by %s' % show(d)[:150]); continue
                ctx.violation(key, '%s changes %s by %s over %s sub-steps instead of %s each' % (n, NAME[c], show(sub(total, E(c)))[:160], 'n', show(want[c])[:100]), F.loc(e['I']))
            else:
                if close(sub(total, E(c))): ctx.violation(key, '%s does not advance %s' % (n, NAME[c]), F.loc(e['I'])); continue
                rest = sub(total, E(c))
                for t, i in incs: rest = sub(rest, mul(t, i))
                vs = [x for t, i in incs for x in T.atoms(i) if AT[x][0] == 'call' and method(AT[x][2]) == 'V']
                ok = len(incs) == 1 and len(set(vs)) == 1 and close(sub(incs[0][0], ns)) and (pit.equal(incs[0][1], fabs(mul(ah, atom(vs[0]))), None, DOM(a, ns))) and close(rest)
                if ok:
                    inv = F.ins[AT[vs[0]][1]]; h = F.loopof.get(F.blk[inv["id"]])
                    ok = bool(h is not None)
                if ok: ctx.ok(key)
                elif any(foreign(i, th, vs) for t, i in incs) or len(incs) != 1: ctx.undecided(key, 'increment %s' % [show(i)[:80] for t, i in incs])
                else: ctx.violation(key, '%s changes %s by %s per sub-step (%s sub-steps) instead of |charge| times voltage' % (n, NAME[c], show(incs[0][1])[:160], show(incs[0][0])), F.loc(e['I']))

def stale(L, a, t, ah):
    """an increment |charge * v| whose v is, on some path, carried over from an earlier sub-step"""
    for x in T.atoms(topoly(t)):
        c = L.carried(x) if AT[x][0] in ('jm', 'j') else None
        if c is None or c[1] is None: continue
        h, inf = c
        for u in inf['upd']:
            d = sub(topoly(u), atom(x))
            for y in T.atoms(d):
                if y == x or AT[y][0] != 'j' or not pit.equal(d, fabs(mul(ah, atom(y))), None, lambda q: (-3, 3)): continue
                o = sources(a.F, AT[y][2], h)
                if o and o[1] and any(a.F.ins[i]['op'] in ('call', 'invoke') and method(a.F.ins[i].get('dem') or '?') == 'V' for i in o[0]): return next(a.F.ins[i]['dem'] for i in o[0] if a.F.ins[i]['op'] in ('call', 'invoke'))
    return None

def sources(F, i, h):
    """instructions whose value phi i of a loop at h can hold, and whether it can hold one from an earlier iteration"""
    leaf = set(); old = False; seen = set(); w = [i]
    while w:
        k = w.pop()
        if k in seen or k not in F.ins: continue
        seen.add(k); I = F.ins[k]
        if I['op'] != 'phi': leaf.add(k); continue
        if F.blk[k] == h: old = True
        elif F.blk[k] not in F.loops[h]['body']: continue
        for v, b in I['in']:
            if v[0] == 'v' : w.append(v[1])
    return leaf, old

def DOM(a, ns):
    n = as_atom(ns)
    return lambda t: (1, 40, 'int') if t == AT[n] else (-3, 3) if t[0] == 'E' else None

NAME = {'time': 'the age', 'Ah': 'the charge throughput', 'Wh': 'the energy throughput', 'SOC': 'the state of charge'}

def close(d):
    return all(abs(c) < 1e-9 for m, c in topoly(d)[1])

def foreign(t, th, ok=()):
    """does the term contain anything the analysis could not resolve?"""
    return any(x not in ok and AT[x][0] in ('jm', 'j', 'hv', 'call', 'undef', 'ld', 'ldm', 'm', 'op', 'lb') for x in T.atoms(t))

def clamp(t):
    """the number of steps is not negative: max(0, n) = n"""
    return subst_atoms(topoly(t), lambda q: (AT[q][3] if AT[q][2] == ZERO else AT[q][2]) if AT[q][0] == 'fn' and AT[q][1] == 'max' and ZERO in AT[q][2:] else None)

def steps(L, t, depth=0):
    """entry value plus what all loops add: (total, [(trip, increment)]) or None"""
    t = topoly(t); incs = []; memo = {}
    def res(p, d):
        p = topoly(p)
        if d > 12: return None
        for x in list(T.atoms(p)):
            if AT[x][0] not in ('jm', 'j'): continue
            c = L.carried(x)
            if c is None or c[1] is None: return None
            h, inf = c
            if len(inf['init']) != 1 or not inf['upd']: return None
            ini = res(next(iter(inf['init'])), d + 1)
            if ini is None: return None
            deltas = set()
            for u in inf['upd']:
                r = inner(u, x, h, d + 1)
                if r is None: return None
                deltas.add(sub(r, atom(x)))
            if len(deltas) != 1: return None
            dl = next(iter(deltas))
            if any(AT[y][0] in ('jm', 'j') and AT[y][-1 if AT[y][0] == 'jm' else 1] == h for y in T.atoms(dl)): return None
            if dl == ZERO: p = subst_atoms(p, lambda q: ini if q == x else None); continue
            N = {clamp(n) for _, n in L.trip(h)}
            if len(N) != 1: return None
            N = next(iter(N)); incs.append((N, dl))
            p = subst_atoms(p, lambda q: add(ini, mul(N, dl)) if q == x else None)
        return p
    def inner(u, x, h, d):
        """value at the end of an iteration of loop h in terms of x: resolve loops nested in it"""
        u = topoly(u)
        if d > 12: return None
        for y in list(T.atoms(u)):
            if y == x or AT[y][0] not in ('jm', 'j'): continue
            hy = AT[y][3] if AT[y][0] == 'jm' else AT[y][1]
            if hy == h: continue
            c = L.carried(y)
            if c is None or c[1] is None or len(c[1]['init']) != 1: return None
            for w in c[1]['upd']:
                if topoly(w) != atom(y):
                    w2 = inner(w, y, hy, d + 1)
                    if w2 != atom(y): return None
            i = inner(next(iter(c[1]['init'])), x, h, d + 1)
            if i is None: return None
            u = subst_atoms(u, lambda q: i if q == y else None)
        return u
    r = res(t, 0)
    return None if r is None else (r, incs)

RESTORE = {'setStates', 'setStateObj', 'timeStep_CC'}

def effects(ctx):
    for k in CELLS:
        cls = 'slide::' + k; m = CELLS[k]
        q = offs(ctx, k)
        if q is None: continue
        loc = {c: AT[as_atom(q[c])][2] for c in ('time', 'Ah', 'Wh') if as_atom(q[c]) is not None and AT[as_atom(q[c])][0] == 'E'}
        rs = []; seen = set(); virt = set(ctx.vtabs().get(m, []))
        own = re.escape(demcls(k))
        for f in ctx.find(r'^(?:[\w:<>*&, ]+ )?slide::(%s|Cell|StorageUnit)::~?\w+\(' % own):
            d = f['dem']; mm = re.search(r'slide::(?:%s|Cell|StorageUnit)::(~?\w+)\(' % own, d)
            if not mm or '~' in mm.group(1) or d.endswith('const') or '$_' in d: continue
            meth = mm.group(1)
            if re.match(r'Cell_\w+$|Cell$|StorageUnit$', meth) or meth in RESTORE or f['name'] in seen: continue
            if not re.search(own + '::', d) and any(re.search(own + '::' + meth + r'\(', ctx.dems().get(s, '')) for s in virt): continue
            seen.add(f['name']); rs.append(dict(name=k + '::' + meth + '@' + f['name'], cls=m, fn=f['name']))
        P = ctx.load(rs, unroll=True)
        for r in rs:
            F = P.fn(r['name']); n = r['name'].split('@')[0]
            if F is None or F.this is None: continue
            a = ctx.ai(F, P, HE(), cls)
            for e in a.exits:
                bad = [c for c in loc for lo, hi, why in a.changed(e['st'], a.this) if lo < loc[c] + 8 and loc[c] < hi]
                if not bad: ctx.ok(n + ' keeps the counters'); continue
                vals = [a.read(e['st'], a.this, loc[c]) for c in bad]
                if any(AT[x][0] in ('hv', 'undef', 'jm') for v in vals for x in T.atoms(topoly(v))): ctx.undecided(n + ' keeps the counters', 'effect on %s unknown' % bad); continue
                ctx.violation(n + ' changes the counters', '%s sets %s to %s' % (n, ', '.join(NAME[c] for c in bad), ', '.join(show(v)[:80] for v in vals)), F.loc(e['I']))

class HE(Hooks):
    K = 8
