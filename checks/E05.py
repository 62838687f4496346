"""E05: balancing always gives ageing back."""
TECH = 'typestate analysis over all exits of every procedure that balances (error exits included), and abstract interpretation of the recursion once per concrete unit class with proved member ranges'
NOTE = ('Every function that starts a balancing run is analysed on every path, errors included: ageing is blocked on the same unit when the balancing starts and unblocked when the function is left. The balancing itself is analysed once for every concrete class of unit: '
        'cells are charged to the balancing voltage and set to zero current, packs hand on every member. Whether the cells really reach the voltage is a runtime matter.')
from vf.core import *
from vf.interp import Hooks
from vf.loops import method
from vf.members import Members

RB = 'slide::Procedure::rebalance('
MOVE = ('setCurrent', 'setVoltage', 'timeStep_CC')
PH = re.compile(r'slide::Cycler::(CC|CV|CCCV|CCCV_with_tlim|rest|setCurrent|Profile)\(')

class W(Hooks):
    """who is blocked: ps = ((unit, choice)...) plus the events"""
    K = 64
    def mark(self, st, *m):
        if m not in st.ps: st.ps = tuple(sorted(st.ps + (m,), key=str))
    def joinps(self, a, b): return tuple(sorted((set(a) & set(b)) | {x for x in a + b if x[0] == 'bal' or x[0] == 'blk' and x[2] is not False}, key=str))
    def may_throw(self, ai, st, I, callee):
        return not nothrow_(callee)
    def call(self, ai, st, I, callee, args):
        m = method(callee)
        if m == 'setBlockDegAndTherm':
            st.ps = tuple(x for x in st.ps if not (x[0] == 'blk' and x[1] == base(args[0])))
            b = tobool(args[1]); v = True if b == TRUE else False if b == FALSE else '?'
            self.mark(st, 'blk', base(args[0]), v)
            return [(st, None, 'ret')]
        if callee.startswith(RB) or '::rebalance(' in callee:
            self.mark(st, 'bal', I['id'], base(args[1]), tuple(x for x in st.ps if x[0] == 'blk'))
            u = st.clone(); u.exc = None
            return [(st, atom(('call', I['id'], callee)), 'ret'), (u, None, 'unw')]
        return None
    def havoc(self, ai, st, I, callee, args): return () if 'slide::' in callee else None

def nothrow_(c):
    from vf.interp import nothrow
    return nothrow(c)

def base(t):
    t = toptr(t) if t[0] != 'ptr' else t
    return (t[1], t[2])

def run(ctx):
    ctx.rule = ('in every function that starts the balancing: at the call, the last choice handed to setBlockDegAndTherm of the same unit is true; at every exit, by return or by error, it is false; with the balance argument set every return has balanced; '
                'rebalance for each concrete class: cells run a CC/CV phase to the balancing voltage of the procedure and end with setCurrent(0); packs call it for every member; failures are returned')
    ctx.assume = ['blocking and unblocking do not fail', 'members do not change the member vector of their owner', 'output to streams does not fail', 'by induction over the nesting depth']
    fs = ctx.find(r'^(?:[\w:]+ )?slide::Procedure::(?!~)\w+\(')
    fs = [f for f in fs if not re.search(r'Procedure::(Procedure|rebalance)\(', f['dem'])]
    rb = ctx.find(r'slide::Procedure::rebalance\(')
    if not rb: ctx.undecided('rebalance', 'not found'); return
    # who starts it
    rs = [dict(name='Procedure::' + method(f['dem']) + '@%d' % i, cls='', fn=f['name']) for i, f in enumerate(fs)]
    P = ctx.load(rs, never=[r'slide::Procedure::(rebalance|checkUp|checkMod|writeThroughput|checkUp_prep|storeThroughput|balanceCheckup)\(', r'slide::Cycler::', r'slide::visit_SUs'])
    found = 0
    for r in rs:
        F = P.fn(r['name']); n = r['name'].split('@')[0]
        if F is None or not any('::rebalance(' in (I.get('dem') or '') for b in F.rpo for I in F.blocks[b] if I['op'] in ('call', 'invoke')): continue
        found += 1; starter(ctx, P, F, n)
    if not found: ctx.undecided('starter', 'no function starts the balancing')
    balance(ctx, rb[0])

def starter(ctx, P, F, n):
    h = W(); a = ctx.ai(F, P, h, None)
    bools = [x for x in F.pargs if x['ty'] in ('i1', 'i8') and x.get('name', '') == 'balance']
    for e in a.exits:
        ps = e['st'].ps; bal = [x for x in ps if x[0] == 'bal']
        how = 'returns' if e['kind'] == 'ret' else 'is left by an error'
        for _, i, who, blk in bal:
            now = {x[2] for x in blk if x[1] == who}
            ctx.check(n + ' blocks before balancing', now == {True}, '%s starts balancing at %s although ageing is not blocked on that unit' % (n, F.loc(F.ins[i])), F.loc(F.ins[i]))
        for x in ps:
            if x[0] != 'blk': continue
            key = '%s unblocks (%s)' % (n, e['kind'])
            if x[2] == '?': ctx.undecided(key, 'choice not understood')
            else: ctx.check(key, x[2] is False, '%s %s at %s with ageing still blocked' % (n, how, F.loc(e['I'])), F.loc(e['I']))
        if bools and e['kind'] == 'ret' and not bal:
            q = a.query(e['st'], tobool(atom(('arg', bools[0]['id']))))
            if q is False: ctx.ok(n + ' without balancing')
            elif q is None: ctx.undecided(n + ' balances when asked', 'not decided')
            else: ctx.violation(n + ' balances when asked', '%s returns at %s without balancing although it was asked to' % (n, F.loc(e['I'])), F.loc(e['I']))

class Recv(Hooks):
    """the unit is of one concrete class"""
    K = 64
    def init(self, ai, st): st.facts = ai.assume(st, rel(topoly(ptr(AT[self.su])), ZERO, EQ, 7), False)[0].facts
    def __init__(self, su, cls): self.su = su; self.names = {'_ZTI' + m for m in mangled(cls)}
    def mark(self, st, *m):
        if m not in st.ps: st.ps = tuple(sorted(st.ps + (m,), key=str))
    def joinps(self, a, b): return tuple(sorted((set(a) & set(b)) | {x for x in a + b if x[0] == 'left'}, key=str))
    def enter(self, ai, st, src, blk):
        for hd in ai.F.loops:
            b = ai.F.loops[hd]['body']
            if src in b and blk not in b: self.mark(st, 'left', hd, src, blk)
            if blk == hd: self.mark(st, 'loop', hd)
    def havoc(self, ai, st, I, callee, args):
        return () if 'slide::' in callee else None
    def call(self, ai, st, I, callee, args):
        m = method(callee)
        if callee.startswith('__dynamic_cast'):
            t = args[2] if len(args) > 2 else None
            if args[0][0] == 'ptr' or True:
                b = toptr(args[0])
                if t and t[0] == 'ptr' and AT[t[1]][0] == 'glob' and b[1] == self.su and b[2] == ZERO:
                    return [(st, args[0] if str(AT[t[1]][1]) in self.names else ZERO, 'ret')]
        if '::rebalance(' in callee or PH.search(callee) or m in MOVE or m == 'getCells':
            if m == 'getCells':
                return [(st, ptr(('call', I['id'], callee)), 'ret')]
            mv = m if 'vcall:' in callee else PH.search(callee).group(1) if PH.search(callee) else 'rebalance'
            if mv != 'setCurrent': st.ps = tuple(x for x in st.ps if x[:2] != ('ev', 'setCurrent'))
            self.mark(st, 'ev', mv, I['id'])
            u = st.clone(); u.exc = None
            return [(st, atom(('call', I['id'], callee)), 'ret'), (u, None, 'unw')]
        return None

def mangled(c):
    r = []
    for b in bases(c):
        m = {**CELLS, **PACKS}.get(c) if b == bases(c)[0] else 'N5slide%d%sE' % (len(b), b)
        r.append(m)
    return r

class All(Members):
    def escape(self, h): return None

def balance(ctx, rb):
    n = 'Procedure::rebalance'; names = list(CELLS) + list(PACKS)
    P = ctx.load([dict(name=n, cls='', fn=rb['name'])], never=[r'slide::Cycler::(CC|CV|CCCV|CCCV_with_tlim|rest|setCurrent|Profile)\(', r'slide::Procedure::rebalance\(', r'slide::Battery::getCells\('])
    F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    su = A(('arg', F.pargs[1]['id'])); this = A(('arg', F.pargs[0]['id']))
    vb = P.field('slide::Procedure', 'balance_voltage')
    vset = atom(('E', this, vb[0])) if vb else None
    for c in names:
        h = Recv(su, c); a = ctx.ai(F, P, h, None, loops=True); key = '%s of a %s' % (n, c)
        if not a.exits: ctx.undecided(key, 'no exit'); continue
        sites = {}
        for I, st, args in a.sites: sites.setdefault(I['id'], []).append((I, st, args))
        mem = None
        if c.startswith('Module'):
            # members of the unit, reached through the pointer
            a2this = a.this; a.this = su
            mem = All(ctx, F, P, 'slide::Module', a, 'SUs'); a.this = a2this
        for e in a.exits:
            if e['kind'] != 'ret': continue
            st = e['st']; ev = [x for x in st.ps if x[0] == 'ev']
            val = topoly(e['val']); failing = cval(val) >= 1 if is_const(val) else False
            if not is_const(val): failing = a.query(st, rel(val, ZERO, EQ, 7)) is False
            if failing: ctx.ok(key + ' reports a failure'); continue
            if c.startswith('Cell'):
                cc = [x for x in ev if x[1] in ('CCCV', 'CC', 'CV', 'CCCV_with_tlim')]
                if not cc: ctx.violation(key, '%s returns at %s without balancing a %s' % (n, F.loc(e['I']), c), F.loc(e['I'])); continue
                bad = None
                for I, s, args in [y for x in cc for y in sites.get(x[2], [])]:
                    ok = vset is not None and any(topoly(x) == vset for x in args[1:])
                    if not ok: bad = I
                if vset is None: ctx.undecided(key + ' voltage', 'balancing voltage not found')
                else: ctx.check(key + ' voltage', bad is None, '%s does not bring the %s to the balancing voltage (%s)' % (n, c, F.loc(bad) if bad else ''), F.loc(bad) if bad else '')
                fin = [x for x in ev if x[1] == 'setCurrent']
                z = fin and all(topoly(args[1]) == ZERO for I, s, args in sites.get(fin[-1][2], []))
                ctx.check(key + ' ends at rest', bool(z), '%s returns at %s without taking the current off the %s' % (n, F.loc(e['I']), c), F.loc(e['I']))
                ctx.ok(key)
            elif c == 'Battery':
                g = [x for x in ev if x[1] == 'rebalance']
                r = None
                for x in g:
                    for I, s, args in sites.get(x[2], []):
                        t = toptr(args[1]); r = AT[t[1]][0] == 'call' and method(AT[t[1]][2]) == 'getCells' or AT[t[1]] == ('E', su, P.field('slide::Battery', 'cells')[0])
                if not g: ctx.violation(key, '%s returns at %s without balancing the cells of a battery' % (n, F.loc(e['I'])), F.loc(e['I']))
                elif r: ctx.ok(key)
                else: ctx.undecided(key, 'member of the battery not understood')
            else:
                got = []
                for x in {i for i in sites if '::rebalance(' in (F.ins[i].get('dem') or '')}:
                    for I, s, args in sites[x]:
                        hd = (F.loopof[F.blk[x]] or {'header': None})['header']
                        done = hd is not None and ('loop', hd) in st.ps
                        g = mem.range(I, s, args[1]) if done else None
                        if g == 'all' and early(a, mem, F, hd, st): g = 'only some of the members (the loop is left early)'
                        if done or ('ev', 'rebalance', x) in st.ps: got.append(g)
                if 'all' in got: ctx.ok(key)
                elif not got: ctx.violation(key, '%s returns at %s without balancing the members of a %s' % (n, F.loc(e['I']), c), F.loc(e['I']))
                elif None in got: ctx.undecided(key, 'member calls not understood')
                else: ctx.violation(key, '%s returns success at %s having balanced %s' % (n, F.loc(e['I']), got[0]), F.loc(e['I']))

def early(a, mem, F, h, st):
    """was the loop left with members still to come and the failure not reported?"""
    good = set()
    for x, s in F.loops[h]['exits']:
        for st2, c, succ in a.conds.get(x, []):
            if s not in succ or c[1] == 'c': continue
            cont = c if succ[0] != s else bnot(c)
            if mem.L.solve(mem.L.norm(cont), mem.L.k(h)) is not None: good.add((x, s))
    return any(x[0] == 'left' and x[1] == h and (x[2], x[3]) not in good for x in st.ps)
