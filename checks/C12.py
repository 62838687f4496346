"""C12: operations that promise not to fail cannot end the program."""
TECH = 'error-escape analysis: every noexcept function with a terminate handler, errors propagated by type through catch clauses, virtual calls resolved to all implementations'
NOTE = ('Every function of the library that is compiled as non-throwing but contains a terminate handler is a root. Its body, with all helpers inlined, is analysed with the types of the errors that each throw statement and each '
        'implementation of each virtual method can raise; no terminate handler may be reachable.')
from vf.core import *
from vf.interp import Hooks, nothrow, _pure
from vf.loops import method

VC = re.compile(r'^vcall:([\w:]+)#(\w+)\(')
class H(Hooks):
    K = 16; fobj = {}
    def __init__(self, T): self.T = T; self.used = set()
    def key(self, ai, st, blk): return None
    def unwound(self, ai, st, I, callee): st.ps = (('from', I['id']),)
    def call(self, ai, st, I, callee, args):
        m = VC.match(callee)
        if m and m.group(2) in self.T:
            ex = self.T[m.group(2)]; self.used.add(m.group(2))
            r = None
            for b in self.havoc(ai, st, I, callee, args) or [a[1] for k, a in enumerate(args) if a[0] == 'ptr' and not (k == 0 and callee.endswith('const'))]:
                if AT[b][0] != 'glob': ai.havoc(st, b, ('call', I['id']))
            out = [(st, None, 'ret')]
            if not I.get('nounwind'):
                for e in sorted(ex, key=str):
                    u = st.clone(); u.exc = e if e != '?' else None; u.ps = (('from', I['id']),); out.append((u, None, 'unw'))
            return out
        return None
    def may_throw(self, ai, st, I, callee):
        if nothrow(callee): return False
        m = re.match(r'std::function<(.*)>::(function|operator\(\)|~function|swap)\(', callee)
        if m: return m.group(2) == 'operator()' and bool(self.fobj.get(m.group(1), {'?'}))
        if re.match(r'std::(abs|min|max|sqrt|distance|advance|copy|fill|move|forward)', callee): return False
        if 'slide::linInt' in callee: return True
        return True
    def thrown(self, callee): return '_ZTIi' if 'linInt' in callee else None

def run(ctx):
    ctx.rule = ('roots: every function of namespace slide without errors in its type (noexcept, destructors included) whose code has a terminate handler; errors: every throw statement with its type, every virtual method with the set of error types its implementations '
                'let out (fixed point over all classes), library calls except stream output, strings and allocation; no path leads from an error to a terminate handler or out of a noexcept function')
    ctx.assume = ['stream output, string handling and allocation do not fail', 'functions held in std::function objects exist']
    LI = ctx.find(r'slide::linInt(_noexcept)?<')
    PL = ctx.load([dict(name='L@' + f['name'], cls='', fn=f['name']) for f in LI], opaque=[])
    for f in LI:
        G = PL.fn('L@' + f['name'])
        if G is None: ctx.undecided(f['dem'][:80], 'not loaded'); continue
        t = {e['st'].exc or '?' for e in ctx.ai(G, PL, H({}), None).exits if e['kind'] == 'throw'}
        t -= {'?'} if any('FixedData' in f['dem'] for _ in (1,)) else set()
        if t <= {'_ZTIi'}: ctx.ok('errors of ' + f['dem'][:70], ','.join(t))
        else: ctx.undecided('errors of ' + f['dem'][:70], str(t))
    # error types of virtual methods
    impls = {}
    sigs = {}
    for f in ctx.find(r'^std::_Function_handler<.*>::_M_invoke\('):
        d = f['dem']; k = d[len('std::_Function_handler<'):]; dep = 0; i = 0
        while i < len(k) and not (k[i] == ',' and dep == 0): dep += {'(': 1, '<': 1, ')': -1, '>': -1}.get(k[i], 0); i += 1
        sigs.setdefault(k[:i], []).append(f['name'])
    inv = [dict(name='I@' + s, cls='', fn=s) for v in sigs.values() for s in v]
    PI = ctx.load(inv, opaque=[r'slide::linInt'], force=[' slide::', '^slide::', 'std::__invoke', 'std::_Function'])
    H.fobj = {}
    for sg, v in sigs.items():
        H.fobj[sg] = set()
        for s in v:
            f = PI.fn('I@' + s); n = 'function object ' + ctx.dems()[s][:90]
            if f is None: ctx.undecided(n, 'not loaded'); H.fobj[sg].add('?'); continue
            t = {e['st'].exc or '?' for e in ctx.ai(f, PI, H({}), None).exits if e['kind'] == 'throw'}
            H.fobj[sg] |= t; ctx.ok(n, ','.join(t) or 'raises nothing')
    for static in ('N5slide11StorageUnitE', 'N5slide10CoolSystemE'):
        for m, sl in ctx.vtabs(static).items():
            if '__cxa_pure_virtual' in sl: continue
            for s in sl:
                d = ctx.dems().get(s, ''); mm = re.search(r'::(\w+)\(', d)
                if not mm or '~' in d or mm.group(1) in ('copy',): continue
                impls.setdefault(mm.group(1), {})[(m, s)] = d
    names = {v: k for k, v in {**CELLS, **PACKS, **COOLS}.items()}
    rootsl = [dict(name=k + '@' + s + '@' + m, cls=m, fn=s) for k, v in impls.items() for (m, s) in v]
    # one analysis per symbol is enough
    seen = set(); todo = []
    for r in rootsl:
        if r['fn'] in seen: continue
        seen.add(r['fn']); todo.append(r)
    P = ctx.load(todo, opaque=[r'slide::linInt', r'slide::run<', r'::(write\w*|store\w*)\('], force=['^slide::(Cell|Module|Battery|StorageUnit|CoolSystem|free|State|XYdata|Fixed|SmallVector|Deep)', ' slide::(Cell|Module|Battery|StorageUnit|CoolSystem|free|State|XYdata|Fixed|SmallVector|Deep)'])
    F = {r['name']: P.fn(r['name']) for r in todo}
    cur = {k: set() for k in impls}
    deps = {}; res = {}
    for rnd in range(6):
        ch = False
        for n, f in F.items():
            if f is None: continue
            k = n.split('@')[0]
            if n in res and not (deps.get(n, set()) & changed_): continue
            h = H(cur); h.collect = False
            try: a = ctx.ai(f, P, h, 'slide::' + names.get(n.split('@')[2], '') if names.get(n.split('@')[2]) else None)
            except RuntimeError as e: ctx.undecided(n, str(e)); res[n] = {'?'}; cur[k].add('?'); continue
            deps[n] = h.used
            res[n] = {e['st'].exc or '?' for e in a.exits if e['kind'] == 'throw'}
        new = {k: set() for k in impls}
        for n in res: new[n.split('@')[0]] |= res[n]
        changed_ = {k for k in new if new[k] != cur[k]}
        cur = new
        if not changed_: break
    ctx.tab = cur
    # roots
    L = [f for f in ctx.index().index if not f['decl'] and f.get('term') and f['nounwind'] and re.match(r'^(?:[\w:<>*& ,\[\]]+ )?slide::', f['dem']) and not re.match(r'^(std|void std|bool std|auto std|__gnu)', f['dem'])]
    ctx.analysed['call_sites'] = len(L)
    PP = ctx.load([dict(name='R@' + f['name'], cls='', fn=f['name']) for f in L], opaque=[r'slide::linInt', r'slide::run<'])
    for f in L:
        G = PP.fn('R@' + f['name']); n = f['dem'].split('(')[0]
        if G is None: ctx.undecided(n, 'not loaded'); continue
        h = H(cur); a = ctx.ai(G, PP, h, None)
        bad = 0
        for I, st, args in a.sites:
            d = I.get('dem') or ''
            if d.startswith(('__clang_call_terminate', 'std::terminate')):
                src = [x[1] for x in st.ps if x[0] == 'from']
                J = G.ins[src[0]] if src else I
                what = J.get('dem') or 'a call'
                if J.get('dem', '').startswith('std::') and not J['dem'].startswith('std::__throw'):
                    ctx.undecided(n, 'library call %s' % J['dem'][:80]); bad = 1; continue
                bad = 1
                ctx.violation(n, 'an error raised by %s at %s leaves %s, which promises not to fail: the program ends' % (what[:80], G.loc(J), n), G.loc(J))
        for e in a.exits:
            if e['kind'] == 'throw': bad = 1; ctx.violation(n, '%s promises not to fail but an error can leave it at %s' % (n, G.loc(e['I'])), G.loc(e['I']))
        if not bad: ctx.ok(n)
    # noexcept promises of virtual methods themselves
    for k, v in cur.items(): ctx.ok('errors of ' + k, ','.join(sorted(map(str, v))) or 'none')
