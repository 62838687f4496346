"""C07: a negative time step is refused before anything changes."""
TECH = 'abstract interpretation of every time-step implementation with the sign of the step as an initial fact'
NOTE = 'Each time-step implementation found in the vtables is analysed once with a negative and once with a non-negative step: every exit of the first is an exception with the object, its members and the members\' units untouched, and the refusing throw of the first is unreachable in the second.'
from vf.core import *
from vf.interp import Hooks, nothrow, readonly, _pure
from vf.loops import method

class H(Hooks):
    K = 32
    def __init__(self, sign): self.sign = sign
    def init(self, ai, st):
        d = next(a for a in ai.F.pargs[1:] if a['ty'] == 'double')
        self.dt = atom(('arg', d['id']))
        r = ai.assume(st, rel(self.dt, ZERO, LT if self.sign < 0 else GT | EQ, 15), True)
        st.facts.update(r[0].facts)
    def call(self, ai, st, I, callee, args):
        if method(callee) == 'timeStep_CC' and len(args) > 1 and args[1][0] == 'P':
            if ai.query(st, rel(args[1], ZERO, LT, 15)) is True: return [(st, None, 'unw')]     # a unit refuses a negative step (its own obligation)
        return None

def run(ctx):
    ctx.rule = ('every class with a timeStep_CC: all exits under dt < 0 are exceptions, without a store to the object or its members and without a call that can change a unit before; '
                'under dt >= 0 no throw that refuses a negative step is reachable; a pack that hands the step on to its module hands on the same step first')
    ctx.assume = ['stream output and string handling do not change a unit']
    roots = []
    names = {v: k for k, v in {**CELLS, **PACKS}.items()}
    for m in sorted(ctx.vtabs()):
        c = names.get(m)
        d = ctx.vtabs()[m]
        s = next((s for s in d if re.search(r'::timeStep_CC\(', ctx.dems().get(s, ''))), None)
        if s is None: continue
        roots.append(dict(name=(c or ctx.dems()[s].split('::')[1]) + '::timeStep_CC@' + m, cls=m, fn=s))
    seen = set(); todo = []
    for r in roots:
        if r['fn'] in seen: continue
        seen.add(r['fn']); todo.append(r)
    P = ctx.load(todo, opaque=[r'slide::linInt', r'slide::run<', r'::(thermalModel|getThotSpot|redistributeCurrent|dState_\w+)\('], force=[' slide::', '^slide::'])
    for r in todo:
        F = P.fn(r['name']); n = r['name'].split('@')[0]
        if F is None: ctx.undecided(n, 'not found'); continue
        neg_ = H(-1); a = ctx.ai(F, P, neg_, 'slide::' + n.split('::')[0])
        thr = set()
        for e in a.exits:
            if e['kind'] == 'ret':
                ctx.violation(n + ' accepts a negative step', '%s returns normally for a negative time step (%s)' % (n, F.loc(e['I'])), F.loc(e['I'])); continue
            ctx.ok(n + ' refuses')
            ch = a.changed(e['st'], a.this)
            if ch: ctx.violation(n + ' changed', '%s has changed %s when it refuses a negative step' % (n, ', '.join(sorted({P.fname('slide::' + n.split('::')[0], int(x[0])) for x in ch if x[0] > -1e9}) or {'the object'})), F.loc(e['I']))
            else: ctx.ok(n + ' unchanged')
        if not a.exits: ctx.undecided(n, 'no exit')
        for I, st, ptr_, val in a.stores:
            b = root(ptr_[1])
            if AT[b][0] in ('arg', 'glob') and b != a.this or AT[ptr_[1]][0] in ('E', 'ld', 'hv', 'call') and b == a.this:
                ctx.violation(n + ' writes', '%s writes to a member before it refuses a negative step (%s)' % (n, F.loc(I)), F.loc(I))
        for I, st, args in a.sites:
            c = I.get('dem') or '?'; sym = I.get('callee') or ''
            ctx.analysed['call_sites'] += 1
            if sym in ('__cxa_throw', '__cxa_rethrow'): thr.add(I['id']); continue
            if sym.startswith(('llvm.', '__cxa', '_Zn', '_Zd', '_ZNSo', '_Unwind')) or nothrow(c) or readonly(c) or _pure.search(c) or I.get('ro'): continue
            if method(c) == 'timeStep_CC':
                ok = args[1] == neg_.dt
                ctx.check(n + ' forwards', ok, '%s hands on a step of %s' % (n, show(args[1])), F.loc(I)); continue
            ctx.violation(n + ' calls ' + method(c), '%s calls %s before it refuses a negative step (%s)' % (n, method(c), F.loc(I)), F.loc(I))
        pos = H(1); b = ctx.ai(F, P, pos, 'slide::' + n.split('::')[0])
        reach = {I['id'] for I, st, args in b.sites if (I.get('callee') or '') in ('__cxa_throw', '__cxa_rethrow')}
        for i in sorted(thr):
            ctx.check(n + ' positive', i not in reach, '%s: the error for negative steps (%s) can also be raised for a zero or positive step' % (n, F.loc(F.ins[i])), F.loc(F.ins[i]))
        if not any(e['kind'] == 'ret' for e in b.exits): ctx.undecided(n, 'no normal return for a positive step')

def root(a):
    while AT[a][0] in ('E', 'ld', 'hv', 'p2i', 'jm'): a = AT[a][1]
    return a
