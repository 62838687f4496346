"""G02: members stepped in parallel do not touch each other."""
TECH = 'interprocedural side-effect analysis (access paths, flow-insensitive, summaries to a fixed point over the call graph with virtual calls resolved through the vtables): what every function reachable from a step may write'
NOTE = ('Writes through the owner, through a pointer or view that cells share, or to program-wide data are reported at the function that makes them; standard streams, atomics, thread-local data and the guarded initialisation of local statics are synchronised by the language. '
        'Functions of the C and C++ runtime without a body change only what their non-const parameters refer to. That the tasks of a pack are handed disjoint members is G01.')
from vf.core import *

MAXP = 4
STREAM = re.compile(r'basic_ostream|std::ostream|std::__ostream_insert|ios_base|basic_ios|_ZSt4c(out|err|log)|std::endl')
SYNC = re.compile(r'std::(atomic|__atomic_base|mutex|lock_guard|unique_lock|scoped_lock|once_flag|condition_variable|thread\b|jthread|shared_ptr|__shared_ptr|__shared_count)|__gthread|pthread_')
PURE = re.compile(r'^(llvm\.(lifetime|dbg|assume|eh|fabs|sqrt|pow|exp|log|fma|max|min|expect|ceil|floor|round|umul|uadd|usub|smul|sadd|ssub|is\.const|objectsize|threadlocal|va_|trap|abs|smax|smin|umax|umin|copysign|fmuladd|cos|sin|type|public)|__cxa_|__clang_call|_Unwind|__gxx|__assert|operator delete|operator new|std::__throw|std::terminate|abort|exit|__dynamic_cast|(std::)?(exp|log|pow|sqrt|sinh|asinh|tanh|cosh|sin|cos|tan|atan|fabs|fmod|log10|log2|exp2|floor|ceil|round|lround|isnan|isinf|abs|memcmp|strn?cmp|strlen|bcmp|nan|fmin|fmax|cbrt|hypot|expm1|log1p|asin|acos|ldexp|frexp)[fl]?(\(|$))')

NONE = frozenset()

def plus(a, b):
    if '*' in (a, b): return '*'
    return a + b if abs(a + b) <= 65536 else '*'

def norm(S):
    """widening: many places of one object become all of its places"""
    if len(S) > 6:
        g = {}
        for a, p, o in S: g.setdefault((a, p), set()).add(o)
        S = {(a, p, '*') if len(os) > 12 else (a, p, o) for (a, p), os in g.items() for o in os}
        g = {}
        for a, p, o in S: g.setdefault((a, p[:1]), set()).add(p)
        big = {k for k, ps in g.items() if len(ps) > 12 and k[1]}
        if big: S = {(a, p[:1] + ('*',), '*') if (a, p[:1]) in big else (a, p, o) for a, p, o in S}
    full = {(a, p) for a, p, o in S if o == '*'}
    tail = {(a, p[:-1]) for a, p, o in S if o == '*' and p and p[-1] == '*'}
    r = set()
    for a, p, o in S:
        if (a, p) in full and o != '*': continue
        if any((a, p[:k]) in tail and (len(p) > k + 1 or p[k] != '*') for k in range(1, len(p))): continue
        r.add((a, p, o))
    return frozenset(r)

class An:
    def __init__(self, ctx):
        self.ctx = ctx; self.fns = {}; self.decl = {}; self.W = {}; self.R = {}; self.why = {}; self.calls = {}; self.impls = {}
        self.slots = {}
        self.fam = {}
        for st in ('N5slide11StorageUnitE', 'N5slide10CoolSystemE'):
            for m, ss in ctx.vtabs(st).items(): self.slots[m] = ss
        self.names = {f['name']: f for f in ctx.index().index}
        self.lay = {}

    def targets(self, dem):
        """implementations of a virtual call"""
        if dem in self.impls: return self.impls[dem]
        m = re.match(r'vcall:(?:slide::)?(.*)#(~?[\w]+)(\(.*\))( const)?', dem); r = set()
        if m:
            meth = m.group(2)
            for mm, ss in self.slots.items():
                for s in ss:
                    d = self.ctx.dems().get(s, '')
                    if re.search(r'::%s\(' % re.escape(meth if meth[0] != '~' else '~'), d) or meth == '~dtor' and '::~' in d: r.add(s)
        self.impls[dem] = r
        return r

    def reach(self, roots):
        todo = set(roots); seen = set()
        while todo:
            L = sorted(todo - seen); seen |= todo; todo = set()
            L = [s for s in L if s in self.names and not self.names[s]['decl']]
            if not L: break
            P = self.ctx.load([dict(name=s, cls='', fn=s) for s in L], never=['.'], force=[])
            self.P = P
            for s in L:
                F = P.fn(s)
                if F is None: continue
                self.fns[s] = F; cs = []
                for B in F.blocks:
                    for I in B:
                        if I['op'] not in ('call', 'invoke'): continue
                        d = I.get('dem') or ''; c = I.get('callee') or ''
                        if STREAM.search(d) or SYNC.search(d): continue
                        t = self.targets(d) if d.startswith('vcall:') else {c} if c in self.names and not self.names[c]['decl'] else set()
                        cs.append((I, t)); todo |= {x for x in t if not (STREAM.search(self.names.get(x, {}).get('dem', '')))}
                self.calls[s] = cs

    # -- values: sets of (root, path, offset), least fixed point with widening ----
    def val(self, s, v):
        if v is None: return NONE
        if v[0] == 'g': return {(('glob', v[1]), (), 0)}
        if v[0] == 'gep': return {(a, p, plus(o, v[2] if len(v) > 2 and isinstance(v[2], int) else '*')) for a, p, o in self.val(s, v[1])}
        if v[0] != 'v': return NONE
        return self.V[s].get(v[1], NONE)

    def transfer(self, s, I):
        op = I['op']; r = set()
        if op == 'alloca': return {(('alloca', I['id']), (), 0)}
        if op == 'getelementptr':
            for (a, p, o) in self.val(s, I['base']): r.add((a, p, '*' if I.get('var') else plus(o, I['off'])))
        elif op == 'load' and I['ty'] == 'ptr':
            for (a, p, o) in self.val(s, I['ops'][0]): r |= self.deref(s, a, p, o)
        elif op == 'phi':
            for x, _ in I['in']: r |= self.val(s, x)
        elif op == 'select':
            for x in I['ops'][1:]: r |= self.val(s, x)
        elif op in ('bitcast', 'addrspacecast', 'freeze'): r = self.val(s, I['ops'][0])
        elif op in ('call', 'invoke') and I['ty'] == 'ptr':
            d = I.get('dem') or ''
            if 'operator new' in d or '__cxa_allocate' in d: r = {(('new', I['id']), (), 0)}
            elif '__dynamic_cast' in d: r = self.val(s, I['args'][0])
            elif d.startswith('llvm.threadlocal'): r = NONE
            else:
                for c in self.tgt[s].get(I['id'], ()): r |= self.subst(s, I, self.R.get(c, NONE))
        return r

    def deref(self, s, a, p, o):
        if a[0] in ('alloca', 'new') and not p:
            r = set()
            for (so, x) in self.S[s].get(a, ()):
                if so == o or '*' in (so, o): r |= self.val(s, x)
            r.add((a, (o,), 0))
            return r
        if len(p) >= MAXP: return {(a, p[:MAXP - 1] + ('*',), '*')}
        return {(a, p + (o,), 0)}

    def local(self, s):
        """values of one function under the summaries of the others"""
        F = self.fns[s]; V = self.V[s]; S = self.S[s]; ids = {a['id'] for a in F.args}
        for n, a in enumerate(F.args): V[a['id']] = {(('arg', n), (), 0)}
        moved = False
        for rnd in range(200):
            ch = False
            for B in F.blocks:
                for I in B:
                    if I['op'] == 'store':
                        x = I['ops'][0]
                        if x[0] == 'v' and not (x[1] in ids or F.ins.get(x[1], {}).get('ty') == 'ptr') or x[0] not in ('v', 'g', 'gep'): continue
                        for (a, p, o) in self.val(s, I['ops'][1]):
                            if a[0] in ('alloca', 'new') and not p:
                                e = (o, tuple(x) if not isinstance(x, tuple) else x); L = S.setdefault(a, [])
                                if e not in L: L.append(e); ch = True
                    elif 'id' in I:
                        old = V.get(I['id'], NONE); new = norm(old | self.transfer(s, I))
                        if new != old: V[I['id']] = new; ch = True
            moved |= ch
            if not ch: return moved
        self.settled = False
        return moved

    def subst(self, s, I, paths):
        """paths of a callee in terms of the caller"""
        r = set()
        for (a, p, o) in paths:
            if a[0] == 'glob': r.add((a, p, o)); continue
            if a[0] != 'arg' or a[1] >= len(I['args']): continue
            cur = self.val(s, I['args'][a[1]])
            for step in p:
                nx = set()
                for (b, q, c) in cur: nx |= self.deref(s, b, q, plus(c, step))
                cur = norm(nx)
            for (b, q, c) in cur: r.add((b, q, plus(c, o)))
        return r

    def guarded(self, s):
        """blocks that initialise local statics"""
        F = self.fns[s]; acq = []; rel = set()
        for B in F.blocks:
            for I in B:
                if I.get('callee') == '__cxa_guard_acquire': acq.append(F.blk[I['id']])
                if I.get('callee') in ('__cxa_guard_release', '__cxa_guard_abort'): rel.add(F.blk[I['id']])
        if not acq: return set()
        ok = set()
        for b in range(F.n):
            if not any(F.dominates(a, b) for a in acq): continue
            seen = {b}; st = [b]
            while st:
                x = st.pop()
                if x in rel: ok.add(b); break
                for y in F.succ[x]:
                    if y not in seen and y not in acq: seen.add(y); st.append(y)
        return ok

    def solve(self):
        self.settled = True
        self.tgt = {s: {I['id']: t for I, t in cs} for s, cs in self.calls.items()}
        self.V = {s: {} for s in self.fns}; self.S = {s: {} for s in self.fns}
        self.W = {s: set() for s in self.fns}; self.R = {s: set() for s in self.fns}
        G = {s: self.guarded(s) for s in self.fns}
        for it in range(60):
            ch = False
            for s, F in self.fns.items():
                self.local(s); w = set(); r = set()
                for b, B in enumerate(F.blocks):
                    for I in B:
                        if I['op'] == 'ret' and I.get('ops'):
                            r |= {x for x in self.val(s, I['ops'][0]) if x[0][0] in ('arg', 'glob')}
                        if b in G[s]: continue
                        out = NONE
                        if I['op'] == 'store': out = self.val(s, I['ops'][1])
                        elif I['op'] in ('call', 'invoke'): out = self.effect(s, I)
                        for x in out:
                            if x[0][0] in ('arg', 'glob'):
                                w.add(x); self.why.setdefault((s, x), I)
                w = norm(self.W[s] | w); r = norm(self.R[s] | r)
                if w != self.W[s] or r != self.R[s]: ch = True; self.W[s] = w; self.R[s] = r
            if not ch: self.rounds = it; return self.settled
        return False

    def effect(self, s, I):
        d = I.get('dem') or ''; c = I.get('callee') or ''
        if STREAM.search(d) or SYNC.search(d) or PURE.match(d) or PURE.match(c): return set()
        if re.match(r'llvm\.mem(cpy|move|set)', d): return self.val(s, I['args'][0])
        t = self.tgt[s].get(I['id'])
        if t:
            r = set()
            for x in t: r |= self.subst(s, I, self.W.get(x, set()))
            return r
        if d.startswith('vcall:'): return set()
        # no body: what its parameters that are not const refer to
        from vf.interp import readonly, constparams
        cp = constparams(d, len(I['args'])); r = set()
        for k, x in enumerate(I['args']):
            if k == 0 and readonly(d) or k in cp: continue
            r |= self.val(s, x)
        return r

    def shared(self, s):
        """{offset of a pointer or view in the object: what it is} of the class of a member function"""
        d = self.fns[s].dem; m = re.search(r'slide::((?:\w+(?:<[^()]*?>)?::)*)(~?\w+)\(', d)
        if not m: return {}
        cls = 'slide::' + m.group(1)[:-2] if m.group(1) else None
        if cls is None: return {}
        cls = re.sub(r'(\d+)ul\b', r'\1', cls)
        if cls not in self.lay:
            r = {}
            try: L = self.P.layout(cls)
            except Exception: L = []
            for o, z, n, t in L:
                if t.endswith('*') and n.split('.')[0] == 'parent': r[o] = 'its owner'
                elif t.endswith('*') and t.startswith('slide::'): r[o] = 'what %s points to' % n
                elif re.match(r'std::span<', t) and ' const' not in t.split(',')[0]: r[o] = 'the table %s is a view of' % n; r[o + 0] = r[o]
            self.lay[cls] = r
        return self.lay[cls]

def run(ctx):
    ctx.rule = ('no function reachable from timeStep_CC of any unit (virtual calls resolved through every vtable of the hierarchy) writes through the parent pointer, through a plain pointer or view that several cells hold, or to a global or a local static outside its guarded initialisation; '
                'the task handed to the parallel runner writes nothing of the pack itself, no variable that all tasks share, and looks at no member but its own')
    ctx.assume = ['functions of the runtime without a body keep to the const of their parameters', 'pointers are not hidden in integers']
    A_ = An(ctx); roots = set()
    for m, ss in A_.slots.items():
        for x in ss:
            if re.search(r'::timeStep_CC\(', ctx.dems().get(x, '')): roots.add(x)
    tasks = {f['name'] for f in ctx.index().index if not f['decl'] and re.search(r'::timeStep_CC\(.*\)::(\$_\d+|\{lambda.*\})::operator\(\)', f['dem'])}
    if not roots: ctx.undecided('timeStep_CC', 'not found'); return
    A_.reach(roots | tasks)
    done = A_.solve()
    for s, F in sorted(A_.fns.items(), key=lambda x: x[1].dem):
        n = short(F.dem); sh = A_.shared(s)
        if not (re.search(r'\bslide::', F.dem)): continue
        ctx.analysed['call_sites'] += len(A_.calls.get(s, []))
        v = []
        for x in sorted(A_.W[s], key=str):
            (a, p, o) = x; I = A_.why.get((s, x)); loc = F.loc(I) if I else None
            if a[0] == 'glob':
                if STREAM.search(a[1]) or a[1].startswith(('_ZGV', '_ZTV', '_ZTI', '_ZTS')): continue
                if inherited(A_, s, x): continue
                v.append(('%s writes program-wide data %s' % (n, gname(a[1])), loc))
            elif a == ('arg', 0) and p and p[0] in sh and not F.sret or a == ('arg', 1) and F.sret and p and p[0] in sh:
                v.append(('%s writes %s' % (n, sh[p[0]]), loc))
            elif s in tasks and a == ('arg', 0) and len(p) == 1 and o != '*':
                if p == (0,): v.append(('the task run in parallel (%s) writes the pack itself (byte %s)' % (n, o), loc))
                else: v.append(('the task run in parallel (%s) writes a variable all tasks share' % n, loc))
        for msg, loc in dict.fromkeys(v): ctx.violation(n + ' ' + msg.split(' writes ')[-1][:40], msg, loc)
        if not v:
            if done: ctx.ok(n)
            else: ctx.undecided(n, 'effects did not settle')
    own_member(ctx, tasks)

def own_member(ctx, tasks):
    """the task looks only at the entry of the member table that bears its number"""
    P = ctx.load([dict(name=s, cls='', fn=s) for s in sorted(tasks)])
    for s in sorted(tasks):
        F = P.fn(s); key = short(F.dem) + ' looks at its own member'
        def strip(v):
            while v[0] == 'v' and F.ins.get(v[1], {}).get('op') in ('sext', 'zext', 'trunc', 'freeze'): v = F.ins[v[1]]['ops'][0]
            return v
        def place(v):
            """(value at the start, constant bytes, [(index, scale)])"""
            off = 0; var = []
            while v[0] == 'v' and F.ins.get(v[1], {}).get('op') == 'getelementptr':
                g = F.ins[v[1]]; off += g['off']; var += [(strip(x), k) for x, k in g['var']]; v = g['base']
            return v, off, var
        def table(v):
            """v is the start of the member table of the pack"""
            if v[0] != 'v' or F.ins.get(v[1], {}).get('op') != 'load': return False
            w, off, var = place(F.ins[v[1]]['ops'][0])
            if off != 56 or var or w[0] != 'v' or F.ins.get(w[1], {}).get('op') != 'load': return False
            w, off, var = place(F.ins[w[1]]['ops'][0])
            return w == ['v', F.args[0]['id']] and not off and not var
        n = 0; bad = None; unk = None
        for B in F.blocks:
            for I in B:
                if I['op'] != 'load' or I['ty'] != 'ptr': continue
                w, off, var = place(I['ops'][0])
                if not table(w): continue
                n += 1
                if var == [(['v', F.args[1]['id']], 8)] and off == 0: continue
                if not var or off and var == [(['v', F.args[1]['id']], 8)]: bad = I
                else: unk = I
        if bad: ctx.violation(key, 'the task run in parallel (%s) looks at a member other than its own' % short(F.dem), F.loc(bad))
        elif unk or not n: ctx.undecided(key, 'the member the task works on was not recognised')
        else: ctx.ok(key)

def inherited(A_, s, x):
    """written by a repository function that is called: reported there"""
    for I, t in A_.calls[s]:
        for c in t:
            if c in A_.fns and re.search(r'\bslide::', A_.fns[c].dem) and x in A_.W.get(c, ()): return True
    return False

def gname(g):
    import subprocess
    try: return subprocess.run(['c++filt', g.rsplit('.', 1)[0] if re.search(r'\.\d+$', g) else g], capture_output=True, text=True).stdout.strip()
    except OSError: return g

def short(d):
    d = re.sub(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string', d)
    return (d.split('(')[0] if '$_' not in d and 'lambda' not in d else d)[:110]
