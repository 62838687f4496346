"""D01: every documented degradation choice has a model and others are refused."""
TECH = 'decision table over the model identifiers on the abstract paths of every degradation mechanism, and exception-path effect analysis of their callers'
NOTE = ('For every mechanism the identifiers 0 to 255 are checked against the path conditions of all abstract paths of the model selection: documented ones complete, with a contribution unless they are zero, all others only end in an error, with no output written; '
        'the errors are shown to leave the time step without any ageing rate applied.')
from vf.core import *
from vf.ageing import Mech, MECH, CLS, PROBE
from vf import term as T
from checks_util import other
C08 = other('C08'); D04 = other('D04')

def run(ctx):
    ctx.rule = 'an iteration (or the plating function) completes normally only on paths whose identifier may be documented; every documented identifier other than zero has a completing path with a contribution, zero contributes 0; every other identifier reaches only exits that raise, before outputs or states are written; same for the two options with {0,1}'
    ctx.assume = ['identifiers are unsigned bytes (DEG_ID::data_t)']
    for n in MECH: mech(ctx, n)
    callers(ctx)
    add_model(ctx)

def mech(ctx, name):
    n = 'Cell_SPM::' + name
    m = Mech(ctx, name)
    if not m.ok: ctx.undecided(n, m.why); return
    a, F, L = m.a, m.F, m.L
    doc = m.m['ids']; compl = {}
    if m.h is None:
        for e in m.rets:
            for k in m.ids(e['st']): compl.setdefault(k, []).append((topoly(e['val']), F.loc(e['I'])))
    else:
        accs = {x for e in m.rets for o, v in m.outs(e).items() for x in m.acc(v)}
        for l in F.loops[m.h]['latches']:
            for st in a.edges.get((l, m.h), []):
                for k in m.ids(st):
                    for x in accs or [None]:
                        compl.setdefault(k, []).append((sub(m.upd(st, l, x), atom(x)) if x is not None else ZERO, F.loc(F.blocks[l][-1])))
    for k in PROBE:
        key = '%s identifier %s' % (n, k if k in doc else 'undocumented')
        if k in doc:
            if k not in compl: ctx.violation(key, '%s: the documented identifier %d selects no model' % (n, k), F.loc(F.blocks[F.rpo[0]][0])); continue
            some = [d for d, w in compl[k] if d != ZERO]
            if k == 0:
                if some and all(C08.foreign(d, m.th) for d in some): ctx.undecided(key, show(some[0])[:100])
                elif some: ctx.violation(key, '%s: identifier 0 contributes %s' % (n, show(some[0])[:120]), compl[k][0][1])
                else: ctx.ok(key)
            elif some: ctx.ok(key)
            else: ctx.violation(key, '%s: the documented identifier %d contributes nothing' % (n, k), compl[k][0][1])
        elif k in compl: ctx.violation(key, '%s: the undocumented identifier %d is accepted' % (n, k), compl[k][0][1])
        else: ctx.ok('%s identifier %d' % (n, k))
    # errors: nothing written
    outs = [A(('arg', i)) for i in m.outarg]
    for e in a.exits:
        if e['kind'] != 'throw': continue
        key = n + ' error leaves outputs alone'
        w = [b for b in outs if a.changed(e['st'], b)]
        ids = m.ids(e['st'])
        isid = any(k not in doc for k in ids) and not any(k in doc for k in ids)
        if isid:
            if w: ctx.violation(key, '%s: outputs are written before an unknown identifier is refused' % n, F.loc(e['I']))
            elif a.changed(e['st'], m.th): ctx.violation(key, '%s: the cell is changed before an unknown identifier is refused' % n, F.loc(e['I']))
            else: ctx.ok(key)
    if m.m['opt']:
        fl, o = m.m['opt']; x = atom(('E', m.th, m.off(fl)))
        for k in PROBE:
            rets = [e for e in m.rets if a.query(e['st'], rel(x, const(k), EQ, 7)) is not False]
            key = '%s %s %s' % (n, fl, k if k < 2 else 'undocumented')
            if k < 2:
                if rets: ctx.ok(key)
                else: ctx.violation(key, '%s: %s = %d is refused' % (n, fl, k), F.loc(F.blocks[F.rpo[0]][0]))
            elif rets: ctx.violation(key, '%s: %s = %d is accepted' % (n, fl, k), F.loc(rets[0]['I']))
            else: ctx.ok('%s %s %d' % (n, fl, k))

def callers(ctx):
    """an error of a mechanism leaves dState_degradation and the time step as an error, without ageing"""
    ix = D04.index(ctx)
    if ix is None: return
    from vf.interp import Hooks
    from vf.loops import method
    class HE(Hooks):
        K = 24
        def call(self, ai, st, I, callee, args):
            m = method(callee)
            if m in MECH and args and args[0] == ('ptr', ai.this, ZERO):
                r = st.clone(); u = st.clone(); u.ps = tuple(sorted(set(st.ps) | {m}))
                for a in args[1:]:
                    if a[0] == 'ptr': ai.store(r, a, atom(('call', I['id'], callee)), 8, I)
                res = [(r, atom(('call', I['id'], callee)), 'ret')]
                if I['op'] == 'invoke': res.append((u, None, 'unw'))
                return res
            if m == 'interp':
                r = [(st, atom(('call', I['id'], callee)), 'ret')]
                if I['op'] == 'invoke': r.append((st.clone(), None, 'unw'))
                return r
            return None
    n = 'Cell_SPM::dState_degradation'
    P = ctx.load(ctx.roots('Cell_SPM', ['dState_degradation']), unroll=True, never=[r'slide::Cell_SPM::(SEI|CS|LAM|LiPlating)\(', r'slide::XYdata[A-Za-z_]*(<.*>)?::interp\('])
    F = P.fn(n); a = ctx.ai(F, P, HE(), CLS)
    for e in a.exits:
        if e['kind'] == 'ret' and e['st'].ps: ctx.violation(n + ' passes errors on', 'an error of %s is swallowed' % ', '.join(e['st'].ps), F.loc(e['I']))
        elif e['kind'] == 'ret': ctx.ok(n + ' passes errors on')
    class HT(D04.HS):
        def call(self, ai, st, I, callee, args):
            r = D04.HS.call(self, ai, st, I, callee, args)
            if r and method(callee) == 'dState_degradation':
                for s, v, k in r:
                    if k == 'unw': s.ps = tuple(st.ps) + ('err',)
            return r
    n = 'Cell_SPM::timeStep_CC'
    P = ctx.load(ctx.roots('Cell_SPM', ['timeStep_CC']), never=[r'slide::Cell_SPM::(V|dState_[a-z]+|thermalModel[A-Za-z_]*|update[A-Za-z]+Stress|setT)\('], unroll=True)
    F = P.fn(n); deg = {i: 'set' for i in range(ix['n'])}
    a = ctx.ai(F, P, HT(ix, deg, {}), CLS)
    for e in a.exits:
        if 'err' not in e['st'].ps: continue
        key = n + ' after an error'
        if e['kind'] == 'ret': ctx.violation(key, 'an error of the degradation models is swallowed by the time step', F.loc(e['I'])); continue
        bad = [ix.get(i, i) for i in range(ix['n']) for x in T.atoms(topoly(a.read(e['st'], a.this, ix['st'] + 8 * i))) if AT[x][0] == 'deg']
        if bad: ctx.violation(key, 'ageing rates are applied to %s although the models raised an error' % bad[:3], F.loc(e['I']))
        else: ctx.ok(key)

def add_model(ctx):
    """every identifier other than zero that is added is stored, zero may be left out"""
    r = [f for f in ctx.find(r'slide::DEG_ID::DegArray::add_model\(')]
    if not r: return
    P = ctx.load([dict(name='add_model', cls='', fn=r[0]['name'])]); F = P.fn('add_model')
    a = ctx.ai(F, P, None, 'slide::DEG_ID::DegArray'); th = A(('arg', F.pargs[0]['id'])); el = atom(('arg', F.pargs[1]['id']))
    N = P.field('slide::DEG_ID::DegArray', 'N')
    if N is None: ctx.undecided('add_model', 'layout'); return
    n = atom(('E', th, N[0]))
    for e in a.exits:
        if e['kind'] != 'ret': continue
        z = a.query(e['st'], rel(el, ZERO, EQ, 7)); n2 = topoly(a.read(e['st'], th, N[0]))
        v = next((t for t in [a.load(e['st'], ('ptr', th, n), 1, e['I'])] if t is not None), None)
        if n2 == n and z is True: ctx.ok('add_model of zero')
        elif n2 == n: ctx.violation('add_model stores', 'add_model ignores an identifier that is not zero', F.loc(e['I']))
        elif sub(n2, n) == ONE or as_atom(n2) is not None and AT[as_atom(n2)][0] in ('fn', 'tr', 'op'): 
            if v is not None and topoly(v) == el: ctx.ok('add_model stores the identifier')
            else: ctx.undecided('add_model stores the identifier', 'stored value %s' % (show(v) if v else '?'))
        else: ctx.undecided('add_model counts', 'length %s' % show(n2))
