"""G01: tasks handed to workers run exactly once; errors come back."""
TECH = 'abstract interpretation of the distribution function and of the worker body with closed forms of both loops (partition of the indices derived and compared), typestate of create / join / rethrow, closure capture analysis'
NOTE = ('Decided for every number of tasks, of requested workers and of processors: the indices the k-th of N workers runs are derived as a closed form from the worker body, through the captured variables, and shown to be a partition. '
        'Every captured variable that a worker reads is shown not to change while workers run. The interleaving of the workers plays no role in the argument: that tasks do not disturb each other is G02.')
from vf.core import *
from vf.interp import Hooks
from vf.loops import Loops, method, subst_atoms
from vf import term as T, pit

NEVER = [r'\$_[0-9]+::operator\(\)', r'emplace_back', r'std::thread::', r'::(~?vector|reserve|resize|push_back|assign|clear)\(', r'rethrow', r'current_exception', r'::_M_(realloc|range_check|default_append|fill)', r'exception_ptr::(operator|~|exc|swap)[ a-z=]*\(']
FORCE = [r'slide::', r'__gnu_cxx::', r'std::vector<.*::(c?begin|c?end|size|operator\[\]|data|back|front|empty|at)\(']

def kind(d):
    """what a call is to the distribution function"""
    if re.search(r'\$_\d+::operator\(\)\((unsigned )?(int|long)\) const$', d) or re.search(r'\$_\d+::operator\(\)\((unsigned )?(int|long)\)$', d): return 'task'
    s = re.sub(r'<.*', '', d)
    if re.search(r'std::vector<std::thread.*>::(emplace_back|push_back)<?', d) and 'lambda' in d: return 'spawn'
    if d.startswith('std::thread::thread<'): return 'thread'
    if d == 'std::thread::join()': return 'join'
    if d == 'std::thread::joinable() const': return 'joinable'
    if d == 'std::thread::detach()': return 'detach'
    if d.startswith('std::rethrow_exception('): return 'rethrow'
    if d.endswith('exception_ptr::operator bool() const'): return 'bool'
    if re.match(r'std::__exception_ptr::exception_ptr::operator=\(', d): return 'record'
    if d.startswith('std::current_exception('): return 'current'
    return None

class H(Hooks):
    K = 64
    def __init__(self, F):
        self.F = F; self.lab = {}
        for b in range(len(F.blocks)):
            for I in F.blocks[b]:
                if I['op'] in ('call', 'invoke'):
                    k = kind(I.get('dem') or '')
                    h = hd(F, b)
                    if k and h is not None: self.lab.setdefault(h, set()).add(k)
    def init(self, ai, st): st.ps = frozenset()
    def joinps(self, a, b): return a | b
    def key(self, ai, st, blk): return st.ps
    def exitkey(self, ai, st): return st.ps
    def enter(self, ai, st, src, blk):
        if blk in self.lab and src not in self.F.loops[blk]['body']:
            for k in self.lab[blk]: st.ps = st.ps | {'in ' + k}
    def leave(self, ai, st, src, blk): st.ps = frozenset(x for x in st.ps if not x.startswith('it '))
    def may_throw(self, ai, st, I, callee):
        from vf.interp import nothrow
        k = kind(callee)
        if k == 'task' or k == 'rethrow': return True
        if k or re.search(r'std::vector<|allocator|hardware_concurrency|exception_ptr', callee): return False
        return not nothrow(callee)
    def unwound(self, ai, st, I, callee):
        if kind(callee) == 'task': st.ps = st.ps | {'err'}
    def call(self, ai, st, I, callee, args):
        k = kind(callee)
        if k: st.ps = st.ps | ({k} if k in ('rethrow', 'record') else set()) | ({'it ' + k} if k in ('join',) else set())
        elif 'err' in st.ps and not re.search(r'exception_ptr|__cxa_|allocator', callee) and not callee.startswith('llvm.'): st.ps = st.ps | {'unk'}
        if k == 'rethrow':
            u = st.clone(); u.exc = None; return [(u, None, 'unw')]
        return None

def run(ctx):
    ctx.rule = ('run(task, n, W): on every normal exit either the calling thread ran the task for each index of [0, n) in one counted loop, or N workers were started in a counted loop, every one of them was joined, and every entry of the error table was examined and found empty; '
                'no error leaves the function between start and join; worker k runs exactly the indices of its class, the classes partition [0, n) for every n, N, W and number of processors; the worker lets no error out and records what it caught under its own number; '
                'variables captured by reference do not change after the first worker starts; packs hand over all their members, and task i advances member i')
    ctx.assume = ['starting and joining a thread and allocating memory do not fail', 'the number of processors reported is any number, zero included, and the same every time it is asked', 'indices do not overflow']
    fs = ctx.find(r'^void slide::run<')
    inst = {}
    for f in fs:
        d = f['dem']
        if re.search(r"'lambda\d*'\(\)::operator\(\)\(\)( const)?$", d): inst.setdefault(top(f['name']), {})['worker'] = f
        elif d.endswith('int)') and '::operator()(' not in tail(d): inst.setdefault(f['name'], {})['run'] = f
    inst = {k: v for k, v in inst.items() if 'run' in v}
    if not inst: ctx.undecided('run', 'no instance of slide::run found'); return
    for k, v in sorted(inst.items()): one(ctx, v)
    packs(ctx)

def tail(d):
    """the text after the parameter list of run"""
    i = d.find('>(', d.find('slide::run<')); n = 0
    depth = 0
    for j in range(d.find('slide::run<') + 10, len(d)):
        c = d[j]
        if c == '<': depth += 1
        elif c == '>' and d[j - 1] != '-': depth -= 1
        if depth == 0 and c == '>': i = j; break
    depth = 0
    for j in range(i + 1, len(d)):
        if d[j] == '(': depth += 1
        elif d[j] == ')':
            depth -= 1
            if depth == 0: return d[j + 1:]
    return ''

def top(mangled):
    """mangled name of run from that of a local class of it"""
    i = mangled.find('ENKUlvE')
    return '_ZN5slide3run' + mangled[len('_ZZN5slide3run'):i] if i > 0 and mangled.startswith('_ZZN5slide3run') else mangled

def hd(F, b):
    l = F.loopof.get(b); return None if l is None else l['header']

def one(ctx, v):
    d = v['run']['dem']; m = re.search(r'slide::run<slide::([\w:]+)\(', d); who = 'run for ' + (m.group(1) if m else '?')
    rs = [dict(name='run', cls='', fn=v['run']['name'])]
    if 'worker' in v: rs.append(dict(name='worker', cls='', fn=v['worker']['name']))
    P = ctx.load(rs, never=NEVER, force=FORCE)
    F = P.fn('run')
    if F is None: ctx.undecided(who, 'not found'); return
    h = H(F); a = ctx.ai(F, P, h, '', loops=True); L = Loops(a)
    ints = [x for x in F.pargs if x['ty'].startswith('i')]
    n = atom(('arg', ints[0]['id'])); W = atom(('arg', ints[1]['id'])) if len(ints) > 1 else None
    by = {}
    seen = set()
    for I, st, args in a.sites:
        k = kind(I.get('dem') or '')
        if k: by.setdefault(k, []).append((I, st, args))
    ids = lambda k: sorted({I['id'] for I, st, args in by.get(k, [])})
    if ids('detach'): ctx.violation(who + ' joins', '%s detaches a worker: it may still run when run() has returned' % who, F.loc(by['detach'][0][0])); return
    # tasks run by the calling thread
    direct(ctx, who, F, a, L, h, n, by)
    spawn = ids('spawn') + ids('thread')
    if spawn: workers(ctx, who, F, a, L, h, n, W, by, P)
    # exits
    for e in a.exits:
        ps = e['st'].ps; loc = F.loc(e['I'])
        if e['kind'] == 'ret':
            S = 'in spawn' in ps or 'in thread' in ps; D = 'in task' in ps
            if not S and not D:
                live = a.assume(e['st'].clone(), T.rel(n, const(0), T.GT, 7), True)
                if live: ctx.violation(who + ' runs the tasks', '%s returns without running any task although there may be some' % who, loc)
                else: ctx.ok(who + ' runs the tasks')
                continue
            if S:
                if 'in join' not in ps: ctx.check(who + ' joins', False, '%s returns on a path on which the workers were started but not waited for' % who, loc)
                else: ctx.ok(who + ' joins')
                if 'in bool' not in ps and not ids('rethrow'): ctx.violation(who + ' passes errors on', '%s returns normally after the workers ended without looking at their errors' % who, loc)
                elif not ids('rethrow') and not any(x['kind'] != 'ret' and 'in join' in x['st'].ps for x in a.exits): ctx.violation(who + ' passes errors on', '%s returns normally after the workers ended whatever their errors were' % who, loc)
                elif 'in bool' not in ps: ctx.undecided(who + ' passes errors on', 'the errors are examined in a way that was not recognised')
                else: ctx.ok(who + ' passes errors on')
                if D: ctx.undecided(who + ' runs the tasks', 'some tasks run in the calling thread and some in workers')
            else: ctx.ok(who + ' runs the tasks')
        else:
            if ('in spawn' in ps or 'in thread' in ps) and 'in join' not in ps: ctx.violation(who + ' error before join', '%s can be left by an error after workers were started and before they were joined: the program ends' % who, loc)
            elif 'in join' in ps and 'rethrow' not in ps and 'err' not in ps and 'in bool' not in ps: ctx.undecided(who + ' error while joining', 'an error exit inside the join loop')
            else: ctx.ok(who + ' error exits')

def landing(F, s):
    """block is an error path"""
    return any(I['op'] in ('landingpad',) for I in F.blocks[s][:12])

def exits_ok(F, L, h, extra=lambda x, s: False):
    t = sorted(set(L.trip(h)), key=repr); tb = {x for x, N in t}
    bad = [(x, s) for x, s in F.loops[h]['exits'] if x not in tb and not landing(F, s) and not extra(x, s)]
    return t, bad

def direct(ctx, who, F, a, L, h, n, by):
    done = set()
    for I, st, args in by.get('task', []):
        if I['id'] in done: continue
        done.add(I['id'])
        b = F.blk[I['id']]; lh = hd(F, b); key = '%s runs every task once in the calling thread' % who
        if lh is None: ctx.undecided(key, 'a task is run outside a loop'); continue
        t, bad = exits_ok(F, L, lh)
        if bad: ctx.check(key, None if t == [] else False, '%s can leave the loop over the tasks early' % who, F.loc(I)) if t else ctx.undecided(key, 'loop over the tasks not counted'); continue
        idx = L.norm(args[-1]) if args[-1] is not None else None
        cov = L.coverage(topoly(idx), b, lh) if idx is not None else None
        x = as_atom(topoly(args[-1])) if args[-1] is not None else None; iv = L.iv.get(x)
        if iv is not None and iv[0] == lh and iv[2] not in (1, -1): ctx.violation(key, '%s runs only every %s-th task' % (who, iv[2]), F.loc(I)); continue
        if not cov: ctx.undecided(key, 'indices not resolved: %s' % show(topoly(args[-1]))[:80]); continue
        if not L.every_iteration(lh, b): ctx.violation(key, '%s does not run the task in every iteration' % who, F.loc(I)); continue
        if any(lo == ZERO and sub(hi, n) == ZERO for lo, hi in cov): ctx.ok(key)
        elif all(set(T.atoms(lo)) | set(T.atoms(hi)) <= {as_atom(n)} for lo, hi in cov): ctx.violation(key, '%s runs the tasks [%s, %s) instead of [0, n)' % (who, show(cov[0][0]), show(cov[0][1])), F.loc(I))
        else: ctx.undecided(key, 'indices [%s, %s)' % (show(cov[0][0]), show(cov[0][1])))

def reach(F, b):
    s = set(); w = list(F.succ[b])
    while w:
        x = w.pop()
        if x in s: continue
        s.add(x); w += F.succ[x]
    return s

def workers(ctx, who, F, a, L, h, n, W, by, P):
    sites = by.get('spawn', []) + by.get('thread', [])
    sid = {I['id'] for I, st, args in sites}
    key = who + ' starts the workers'
    if len(sid) != 1: ctx.undecided(key, 'workers are started at %d places' % len(sid)); return
    I, st, args = sites[-1]; b = F.blk[I['id']]; lh = hd(F, b)
    if lh is None: ctx.undecided(key, 'a worker is started outside a loop'); return
    t, bad = exits_ok(F, L, lh)
    if bad or len(t) != 1 or not L.every_iteration(lh, b): ctx.undecided(key, 'the loop which starts the workers is not a plain counted one'); return
    N = L.norm(t[0][1]); ctx.ok(key)
    if kind(I['dem']) == 'spawn': V = args[0]
    else:
        V = None
        for J, s2, ar in a.sites:
            if re.search(r'std::vector<std::thread.*>::(push_back|emplace_back)', J.get('dem') or '') and hd(F, F.blk[J['id']]) == lh: V = ar[0]
    if V is None or V[0] != 'ptr': ctx.undecided(who + ' joins', 'where the workers are kept was not resolved'); V = None
    if V is not None: joins(ctx, who, F, a, L, by, V, lh, N)
    errs = errors(ctx, who, F, a, L, by)
    worker(ctx, who, F, a, L, n, W, by, P, I, [s for J, s, ar in sites], [ar for J, s, ar in sites], lh, N, errs)

def span(a, F, L, lh, V):
    """begin and end of a vector where a loop is entered: sets of terms"""
    r = set()
    for (x, y), sts in a.edges.items():
        if y == lh and x not in F.loops[lh]['body']:
            for s in sts: r.add((p2i(a.read(s, V[1], int(cval(V[2])))), p2i(a.read(s, V[1], int(cval(V[2])) + 8))))
    return r

def outer(a, F, lh, t):
    """values computed before a loop, as they were when the loop was entered"""
    def f(x):
        y = AT[x][1] if AT[x][0] == 'p2i' else x
        if AT[y][0] != 'j' or AT[y][1] != lh or F.blk[AT[y][2]] in F.loops[lh]['body']: return None
        vs = {p2i(s.env.get(AT[y][2])) if AT[x][0] == 'p2i' else s.env.get(AT[y][2]) for (p, q), sts in a.edges.items() if q == lh and p not in F.loops[lh]['body'] for s in sts}
        return next(iter(vs)) if len(vs) == 1 else None
    return subst_atoms(topoly(t), f)

def p2i(v):
    return None if v is None else topoly(T.toptr(v) if v[0] != 'ptr' else v)

def joins(ctx, who, F, a, L, by, V, sh, N):
    key = who + ' joins'
    js = {J['id']: (J, ar) for J, s, ar in by.get('join', [])}
    if not js: return                                     # reported at the exits
    if len(js) != 1: ctx.undecided(key, 'workers are joined at %d places' % len(js)); return
    J, ar = next(iter(js.values())); b = F.blk[J['id']]; lh = hd(F, b)
    if lh is None: ctx.violation(key, '%s waits for one worker only' % who, F.loc(J)) if N != ONE else ctx.ok(key); return
    if lh == sh: ctx.undecided(key, 'started and joined in the same loop'); return
    t, bad = exits_ok(F, L, lh)
    if bad and t: ctx.violation(key, '%s can stop waiting for the workers before every one has finished' % who, F.loc(J)); return
    if not t: ctx.undecided(key, 'loop over the workers not counted'); return
    # every iteration: joined, or found not joinable
    q = skips(F, a, lh, {k[0]['id']: k[0]['dem'] for k in by.get('joinable', [])}, {b})
    if q is None: ctx.undecided(key, 'when a worker is waited for was not resolved')
    else: ctx.check(key, not q, '%s goes on to the next worker without waiting for one that was started' % who, F.loc(J))
    sp = span(a, F, L, lh, V)
    addr = L.norm(ar[0]); 
    idx = scale(topoly(addr), 0.125)
    cov = L.coverage(idx, b, lh)
    if not cov or len(sp) != 1: ctx.undecided(key + ' every one', 'range of the join loop not resolved'); return
    lo, hi = [outer(a, F, lh, q) for q in cov[0]]; B, E = next(iter(sp)); lo8, hi8 = scale(lo, 8.0), scale(hi, 8.0)
    if close(sub(lo8, B)) and (close(sub(hi8, E)) or close(sub(sub(hi8, lo8), scale(N, 8.0)))): ctx.ok(key + ' every one')
    else:
        # the distances to the ends of the list are plain numbers: some worker is left out
        dlo, dhi = sub(lo8, B), sub(hi8, E)
        dn = sub(scale(sub(hi, lo), 1.0), N)
        if is_const(dlo) and (is_const(dhi) or is_const(dn)): ctx.violation(key + ' every one', '%s waits for the workers from number %s to the last but %s only' % (who, show(scale(dlo, 0.125)), show(scale(neg(dhi) if is_const(dhi) else neg(dn), 0.125 if is_const(dhi) else 1.0))), F.loc(J))
        else: ctx.undecided(key + ' every one', 'range [%s, %s)' % (show(lo8)[:80], show(hi8)[:80]))

def close(t): return all(abs(c) < 1e-9 for m, c in topoly(t)[1])

def errors(ctx, who, F, a, L, by):
    """the table whose every entry is examined after the join: (base, begin) or None"""
    key = who + ' passes errors on'
    bs = {J['id']: (J, ar) for J, s, ar in by.get('bool', [])}
    if not bs or not by.get('rethrow'): return None
    if len(bs) != 1: ctx.undecided(key, 'errors are examined at %d places' % len(bs)); return None
    J, ar = next(iter(bs.values())); b = F.blk[J['id']]; lh = hd(F, b)
    if lh is None: ctx.undecided(key, 'errors are not examined in a loop'); return None
    rb = {F.blk[R['id']] for R, s, ar_ in by['rethrow']}
    t, bad = exits_ok(F, L, lh, lambda x, s: rethrows(F, s, rb))
    if not t: ctx.undecided(key, 'loop over the errors not counted'); return None
    if bad: ctx.undecided(key, 'the loop over the errors ends early'); return None
    q = skips(F, a, lh, {J['id']: J['dem']}, rb)
    if q is None: ctx.undecided(key, 'which errors are passed on was not resolved'); return None
    ctx.check(key, not q, '%s goes on although a worker ended with an error' % who, F.loc(J))
    cov = L.coverage(scale(topoly(L.norm(ar[0])), 0.125), b, lh)
    if not cov: ctx.undecided(key, 'range of the loop over the errors not resolved'); return None
    return lh, scale(outer(a, F, lh, cov[0][0]), 8.0), scale(outer(a, F, lh, cov[0][1]), 8.0), F.loc(J)

def skips(F, a, lh, tests, done):
    """can an iteration of the loop come to its end without passing a block of done, other than where a test call was false?"""
    body = F.loops[lh]['body']; at = {A(('call', i, d)) for i, d in tests.items()}; seen = set(); w = [lh]; reached = False
    while w:
        x = w.pop()
        if x in seen or x in done: continue
        seen.add(x); sc = [y for y in F.succ[x] if y in body and not landing(F, y)]
        for st, c, succ in a.conds.get(x, []):
            inner, pos = (c[2], False) if c[1] == 'not' else (c, True)
            if inner[1] == 'atom' and as_atom(inner[2]) in at:
                sc = [y for y in [succ[0] if pos else succ[1]] if y in body]      # where the test is true
                break
        for y in sc:
            if y == lh: reached = True
            else: w.append(y)
    if not reached: return False
    counted = {q for q, N in Loops(a).trip(lh)}
    # a test that was not recognised may stand in between
    for x in seen - counted:
        for st, c, succ in a.conds.get(x, []):
            if c[1] != 'c' and not allatoms(c) & at: return None
    return True

def rethrows(F, s, rb):
    seen = set(); w = [s]
    while w:
        x = w.pop()
        if x in seen or x in rb: continue
        seen.add(x)
        if F.blocks[x][-1]['op'] == 'ret': return False
        w += [y for y in F.succ[x]]
    return True

def worker(ctx, who, F, a, L, n, W, by, P, site, sts, argss, lh, N, errs):
    G = P.fn('worker')
    if G is None: ctx.undecided(who + ' worker', 'the worker body was not found'); return
    g = H(G); w = ctx.ai(G, P, g, '', loops=True); M = Loops(w); me = 'worker of ' + who
    this = w.this if w.this is not None else A(('arg', G.args[0]['id']))
    clos = argss[-1][1] if kind(site['dem']) == 'spawn' else argss[-1][1]
    if clos is None or clos[0] != 'ptr' or not is_const(clos[2]): ctx.undecided(me, 'captured variables not resolved'); return
    cb, c0 = clos[1], int(cval(clos[2]))
    after = reach(F, F.blk[site['id']])
    moved = []
    def field(off):
        r = {a.read(s, cb, c0 + off) for s in sts[-1:]}
        return next(iter(r)) if len(r) == 1 else None
    def stable(base, off):
        for J, s, p, val in a.stores:
            if p[1] == base and is_const(p[2]) and int(cval(p[2])) == off and F.blk[J['id']] in after: return F.loc(J)
        return None
    def res(x):
        """run-level value of what a worker reads"""
        d = AT[x]
        if d[0] == 'E' and d[1] == this: return field(d[2])
        if d[0] == 'E':
            base = ptrof(d[1])
            if base is None: return None
            if AT[base[1]][0] == 'alloca':
                l = stable(base[1], base[2] + d[2])
                if l is not None: moved.append((d, l))
            return a.read(sts[-1], base[1], base[2] + d[2])
        return None
    def ptrof(x):
        v = res(x)
        if v is None: return None
        v = T.toptr(v) if v[0] != 'ptr' else v
        return (v[0], v[1], int(cval(v[2]))) if v is not None and v[0] == 'ptr' and is_const(v[2]) else None
    def lift(t):
        def f(x):
            if AT[x][0] == 'E':
                v = res(x)
                if v is not None: return L.norm(topoly(v))
            if AT[x][0] == 'p2i' :
                return None
            return None
        return subst_atoms(topoly(t), f)
    # (1) errors
    for e in w.exits:
        ps = e['st'].ps; loc = G.loc(e['I'])
        if e['kind'] != 'ret': ctx.violation(me + ' lets no error out', '%s can be left by an error of a task: the program ends' % me, loc); continue
        ctx.ok(me + ' lets no error out')
        if 'err' not in ps: continue
        if 'record' in ps: ctx.ok(me + ' records the error')
        elif 'unk' in ps: ctx.undecided(me + ' records the error', 'not recognised')
        else: ctx.violation(me + ' records the error', '%s swallows the error of a task' % me, loc)
    if not any('err' in e['st'].ps for e in w.exits) and not any(e['kind'] != 'ret' for e in w.exits): ctx.undecided(me + ' records the error', 'no error path found')
    # (2) indices
    tk = {}
    for I, st, args in w.sites:
        if kind(I.get('dem') or '') == 'task': tk.setdefault(I['id'], []).append((I, st, args))
    key = me + ' runs its share'
    if len(tk) != 1: ctx.undecided(key, 'tasks are run at %d places' % len(tk)); return
    I, st, args = next(iter(tk.values()))[-1]; b = G.blk[I['id']]; gh = hd(G, b)
    if gh is None: ctx.undecided(key, 'no loop over the tasks of a worker'); return
    conts = {}
    for x, s in G.loops[gh]['exits']:
        if landing(G, s): continue
        for st2, c, succ in w.conds.get(x, []):
            if s in succ and c[1] != 'c': conts.setdefault(x, set()).add(c if succ[0] != s else T.bnot(c))
        if x not in conts: ctx.undecided(key, 'loop over the tasks not resolved'); return
    if len(conts) != 1 or any(len(c) != 1 for c in conts.values()): ctx.undecided(key, 'loop over the tasks left at several places'); return
    cx, cc = next((x, next(iter(c))) for x, c in conts.items())
    if not all(G.dominates(b, q) for q in G.loops[gh]['latches']): ctx.violation(key, '%s does not run the task in every iteration of its loop' % me, G.loc(I)); return
    idx = topoly(args[-1])
    ph = {}
    for (hh, i), inf in M.phis.items():
        if hh == gh and isinstance(i, int) and inf['ty'] in ('i32', 'i64'): ph[A(('j', gh, i))] = inf
    use = [x for x in ph if x in T.atoms(idx) or x in allatoms(cc)]
    for x in use:
        inf = ph[x]
        if len(inf['init']) != 1 or len(inf['upd']) != 1: ctx.undecided(key, 'loop over the tasks not resolved'); return
    ini = {x: lift(next(iter(ph[x]['init']))) for x in use}; upd = {x: lift(next(iter(ph[x]['upd']))) for x in use}
    lidx = lift(idx); lc = liftb(cc, lift)
    for d, l in moved: ctx.violation(me + ' reads settled values', '%s reads through a reference a variable that run() changes while the workers run' % me, l)
    if moved: return
    ctx.ok(me + ' reads settled values')
    K = L.k(lh)
    free = set()
    for t in list(ini.values()) + list(upd.values()) + [lidx, N]: free |= set(T.atoms(topoly(t)))
    free |= allatoms(lc)
    known = {K, as_atom(n)} | set(use) | ({as_atom(W)} if W is not None else set())
    hc = {x for x in free if AT[x][0] == 'call' and 'hardware_concurrency' in AT[x][2]}
    js = {x for x in free - known - hc if AT[x][0] == 'j' and from_inputs(F, AT[x][2]) or AT[x][0] == 'jm' and mem_inputs(F, a, AT[x])}
    if any(AT[x][0] not in ('fn', 'poly', 'mul', 'fabs', 'sel', 'B', 'alloca') for x in free - known - hc - js): ctx.undecided(key, 'indices depend on %s' % [show(atom(x))[:60] for x in free - known - hc - js if AT[x][0] not in ('fn', 'poly', 'mul', 'fabs', 'sel', 'B', 'alloca')]); return
    # evaluate the closed forms
    tested_first = G.dominates(cx, b)
    import random
    rng = random.Random(7); bad = None; pts = 0
    for nn in list(range(0, 9)) + [13, 40]:
        for trial in range(14):
            hv = rng.choice([0, 1, 2, 3, 5, 8]); Wv = rng.choice([0, 2, 3, 4, 7, 32])
            base = {as_atom(n): float(nn), **{x: float(hv) for x in hc}, **{x: float(hv if Wv < 1 else Wv) for x in js}}
            if W is not None: base[as_atom(W)] = float(Wv)
            try:
                NN = pit.ev(N, env(base)); runs = []
                for k in range(int(NN)):
                    cur = {x: pit.ev(ini[x], env({**base, K: float(k)})) for x in use}; steps = 0
                    while True:
                        ev = {**base, K: float(k), **cur}
                        if tested_first and not pit.evb(lc, env(ev)): break
                        runs.append(int(pit.ev(lidx, env(ev)))); steps += 1
                        if not tested_first and not pit.evb(lc, env(ev)): break
                        if steps > 200: raise OverflowError
                        cur = {x: pit.ev(upd[x], env(ev)) for x in use}
            except pit.Undef: continue
            except OverflowError: bad = (nn, hv, Wv, 'no end'); break
            pts += 1
            if sorted(runs) != list(range(nn)): bad = (nn, hv, Wv, sorted(runs)[:12], int(NN)); break
        if bad: break
    if bad:
        if bad[3] == 'no end': ctx.undecided(key, 'a worker does not come to an end at n=%d' % bad[0]); return
        ctx.violation(key, '%s: for %d tasks, %d processors and %d workers asked for, the %d workers run the tasks %s' % (who, bad[0], bad[1], bad[2], bad[4], bad[3]), G.loc(I)); return
    # structure: k, k + N, k + 2N ... < n
    fine = len(use) == 1
    if fine:
        x = use[0]
        one_ = lidx == atom(x) and ini[x] == atom(K) and close(sub(sub(upd[x], atom(x)), N))
        cond = lc[1] == 'rel' and (close(sub(lc[2], sub(n, atom(x)))) and lc[3] == 0 and lc[4] & 7 == T.GT or close(sub(lc[2], sub(atom(x), n))) and lc[3] == 0 and lc[4] & 7 == T.LT)
        fine = one_ and cond and tested_first
    if fine and pts: ctx.ok(key)
    else: ctx.undecided(key, 'right at %d evaluated points, but not of a form whose partition is proved' % pts)
    # (3) own number in the error table
    k2 = me + ' records under its own number'
    for I, st, args in w.sites:
        if kind(I.get('dem') or '') != 'record' or args[0] is None or args[0][0] != 'ptr': continue
        base = AT[args[0][1]]
        if base[0] != 'E': ctx.undecided(k2, 'where the error is recorded was not resolved'); continue
        vec = ptrof(base[1]) if base[1] != this else None
        if vec is None or errs is None: ctx.undecided(k2, 'where the error is recorded was not resolved'); continue
        idx = scale(lift(args[0][2]), 0.125)
        sp = span(a, F, L, errs[0], ('ptr', vec[1], const(vec[2])))
        if len(sp) != 1: ctx.undecided(k2, 'error table not resolved'); continue
        B, E = next(iter(sp)); B = addr_(B); E = addr_(E)
        if not (close(sub(errs[1], B))) or not close(sub(errs[2], E)):
            dl, dh = sub(errs[1], B), sub(errs[2], E)
            if is_const(dl) and is_const(dh): ctx.violation(who + ' passes errors on', '%s does not look at the errors of all workers' % who, errs[3])
            else: ctx.undecided(who + ' passes errors on', 'the errors examined are not the ones recorded')
        else: ctx.ok(who + ' passes errors on')
        if idx == atom(K): ctx.ok(k2)
        elif K not in T.atoms(idx): ctx.violation(k2, '%s: all workers record their error in the same place at the same time' % me, G.loc(I))
        else: ctx.undecided(k2, 'index %s' % show(idx))
        # size of the table
        size = None
        for J, s, ar in a.sites:
            if re.search(r'::vector\(unsigned long', J.get('dem') or '') and ar[0] is not None and ar[0][0] == 'ptr' and ar[0][1] == vec[1] and ar[0][2] == const(vec[2]): size = L.norm(topoly(ar[1]))
        if size is None: ctx.undecided(me + ' error table', 'size not resolved')
        elif close(sub(size, N)): ctx.ok(me + ' error table')
        elif is_const(sub(size, N)) and cval(sub(size, N)) > 0: ctx.ok(me + ' error table')
        elif is_const(sub(size, N)): ctx.violation(me + ' error table', '%s: the table of errors has %s entries for %s workers' % (who, show(size)[:60], show(N)[:60]), F.loc(site))
        else: ctx.undecided(me + ' error table', 'size %s' % show(size)[:80])

def addr_(t): return topoly(t) if t is not None else ZERO

def env(v):
    e = pit.Env(1, None); e.v.update(v); return e

def from_inputs(F, i):
    """a join of the arguments and the number of processors"""
    seen = set(); w = [i]
    while w:
        k = w.pop()
        if k in seen: continue
        seen.add(k); I = F.ins.get(k)
        if I is None: continue
        if I['op'] in ('call', 'invoke'):
            if 'hardware_concurrency' not in (I.get('dem') or ''): return False
        elif I['op'] == 'phi': w += [v[1] for v, b in I['in'] if v[0] == 'v']
        else: return False
    return True

def mem_inputs(F, a, d):
    """a variable in memory which only ever holds an argument or the number of processors"""
    for J, s, p, val in a.stores:
        if p[1] != d[1] or not is_const(p[2]) or int(cval(p[2])) != d[2]: continue
        x = as_atom(topoly(val)) if val is not None and val[0] != 'ptr' else None
        if x is None or not (AT[x][0] == 'arg' or AT[x][0] == 'call' and 'hardware_concurrency' in AT[x][2]): return False
    return True

def allatoms(c):
    if c[1] == 'rel': return set(T.atoms(c[2]))
    if c[1] in ('and', 'or'): return allatoms(c[2]) | allatoms(c[3])
    if c[1] == 'not': return allatoms(c[2])
    if c[1] == 'atom': return set(T.atoms(c[2]))
    return set()

def liftb(c, lift):
    if c[1] == 'rel': return ('B', 'rel', lift(c[2]), c[3], c[4], c[5])
    if c[1] in ('and', 'or'): return ('B', c[1], liftb(c[2], lift), liftb(c[3], lift))
    if c[1] == 'not': return ('B', 'not', liftb(c[2], lift))
    return c

class HC(Hooks):
    K = 16
    def call(self, ai, st, I, callee, args):
        if callee.startswith('void slide::run<') or 'timeStep_CC' in callee:
            u = st.clone(); return [(st, None, 'ret')] + ([(u, None, 'unw')] if I['op'] == 'invoke' else [])
        return None

def packs(ctx):
    """a pack hands over one task per member, and task i advances member i once"""
    rs = ctx.roots('Module_s', ['timeStep_CC']) + ctx.roots('Module_p', ['timeStep_CC'])
    P = ctx.load(rs, never=[r'void slide::run<', r'redistributeCurrent', r'thermalModel', r'getVmodule', r'::V\(\)'])
    SU = {k: P.field('slide::' + k, 'SUs') or P.field('slide::Module', 'SUs') for k in ('Module_s', 'Module_p')}
    for k in ('Module_s', 'Module_p'):
        n = k + '::timeStep_CC'; F = P.fn(n)
        if F is None: ctx.undecided(n, 'not found'); continue
        a = ctx.ai(F, P, HC(), 'slide::' + k, loops=True); off = SU[k][0]; key = n + ' hands over its members'
        s = [(I, st, ar) for I, st, ar in a.sites if (I.get('dem') or '').startswith('void slide::run<')]
        if not s: ctx.undecided(key, 'does not use slide::run'); continue
        for I, st, ar in s:
            num = topoly(ar[-2]); B, E = a.read(st, a.this, off), a.read(st, a.this, off + 8)
            want = scale(sub(p2i(E), p2i(B)), 0.125); d = sub(num, want)
            if close(d): ctx.ok(key)
            elif is_const(d): ctx.violation(key, '%s hands over %s tasks more than it has members' % (n, show(d)), F.loc(I))
            else: ctx.undecided(key, 'number of tasks %s' % show(num)[:80])
        f = [x for x in ctx.find(r'slide::%s::timeStep_CC\(double, int\)::\$_\d+::operator\(\)\((unsigned )?(int|long)\)' % k)]
        for x in f: functor(ctx, x, k, off)

def functor(ctx, x, k, off):
    key = 'task of %s::timeStep_CC' % k
    P = ctx.load([dict(name='task', cls='', fn=x['name'])]); F = P.fn('task')
    a = ctx.ai(F, P, HC(), '', loops=True); iarg = atom(('arg', F.pargs[-1]['id'])); ids = {}
    for I, st, ar in a.sites:
        if (I.get('dem') or '').startswith('vcall:slide::StorageUnit#timeStep_CC'): ids.setdefault(I['id'], []).append((I, st, ar))
    if len(ids) != 1: ctx.undecided(key, 'advances units at %d places' % len(ids)); return
    I, st, ar = next(iter(ids.values()))[-1]
    if F.loopof.get(F.blk[I['id']]) is not None: ctx.undecided(key, 'advances a unit in a loop'); return
    every = all(F.dominates(F.blk[I['id']], F.blk[e['I']['id']]) for e in a.exits if e['kind'] == 'ret' and e['I']['id'] in F.blk)
    r = ar[0]; L = Loops(a)
    if r is None or r[0] != 'ptr' or r[2] != ZERO or AT[r[1]][0] not in ('ld', 'E'): ctx.undecided(key, 'which unit is advanced was not resolved'); return
    d = AT[r[1]]
    base, o = d[1], topoly(d[2]) if isinstance(d[2], tuple) else const(d[2])
    b = AT[base]
    if not (b[0] == 'E' and b[2] == off): ctx.undecided(key, 'which unit is advanced was not resolved (%s)' % showatom_(r)); return
    idx = scale(o, 0.125)
    if not every: ctx.violation(key, 'task i of %s::timeStep_CC does not always advance its member' % k, F.loc(I)); return
    if close(sub(idx, iarg)): ctx.ok(key)
    elif set(T.atoms(idx)) <= {as_atom(iarg)}: ctx.violation(key, 'task i of %s::timeStep_CC advances member %s' % (k, show(idx)), F.loc(I))
    else: ctx.undecided(key, 'member %s' % show(idx)[:60])
    g = F.args[0]['id']
    tm = [topoly(t) for t in ar[1:]]
    if len(tm) == 2 and all(as_atom(t) is not None and AT[as_atom(t)][0] in ('E', 'ld') for t in tm): ctx.ok(key + ' times')

def showatom_(r): return show(r)[:80]
