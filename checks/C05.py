"""C05: blocking ageing on a unit blocks it on everything inside."""
TECH = 'vtable queries plus abstract interpretation with proved index range of the member calls'
NOTE = 'For every concrete unit class: the setter is dispatched virtually, stores its argument in the unit on every return and is called with the same argument for every member (proved index range) on every return.'
from vf.core import *
from vf.interp import Hooks
from vf.loops import method
from vf.members import Members

M = 'setBlockDegAndTherm'
class H(Hooks):
    K = 32
    def mark(self, st, m):
        if m not in st.ps: st.ps = tuple(sorted(st.ps + (m,)))
    def enter(self, ai, st, src, blk):
        if blk in ai.F.loops: self.mark(st, ('loop', blk))
    def call(self, ai, st, I, callee, args):
        if method(callee) == M:
            self.mark(st, ('call', I['id']))
            return [(st, ZERO, 'ret'), (st.clone(), None, 'unw')]
        return None

def run(ctx):
    ctx.rule = ('setBlockDegAndTherm occupies a vtable slot of every unit class and no class hides it with a member outside the vtable; at every return of every implementation the own flag equals the argument '
                'and a member call with the same argument has covered the member index range 0..n-1')
    ctx.assume = ['members do not change the member vector of their owner', 'by induction over nesting depth every member applies the rule to what it contains']
    vt = ctx.vtabs(); dems = ctx.dems(); names = {v: k for k, v in {**CELLS, **PACKS}.items()}
    slots = set(); todo = {}
    for m, sl in vt.items():
        s = next((s for s in sl if re.search(r'::%s\(' % M, dems.get(s, ''))), None)
        c = names.get(m, m)
        if '__cxa_pure_virtual' in sl:
            if s: slots.add(s)
            continue
        if not ctx.check('virtual in ' + c, s is not None, '%s has no virtual %s: a caller with a base class handle does not reach its members' % (c, M)): continue
        slots.add(s); todo[(c, m)] = s
    for f in ctx.find(r'slide::[\w<>]+::%s\(' % M):
        ctx.check('dispatch ' + f['dem'][:60], f['name'] in slots, '%s is not dispatched virtually, so the handle type decides which one runs' % f['dem'])
    roots = [dict(name=c + '::' + M, cls=m, fn=s) for (c, m), s in todo.items()]
    PP = {r['name']: ctx.load([r], opaque=[r'slide::linInt', r'slide::Module::', r'slide::StorageUnit::'] if r['name'].startswith('Battery') else [r'slide::linInt'], force=[r'^slide::Battery::'] if r['name'].startswith('Battery') else [' slide::', '^slide::']) for r in roots}
    for r in roots:
        P = PP[r['name']]; F = P.fn(r['name']); n = r['name']; cls = 'slide::' + n.split('::')[0]
        if F is None: ctx.undecided(n, 'not found'); continue
        f = P.field(cls, 'blockDegAndTherm')
        if not f: ctx.undecided(n, 'flag not found'); continue
        a = ctx.ai(F, P, H(), cls, loops=True)
        arg = tobool(atom(('arg', F.pargs[1]['id'])))
        vec, single = P.field(cls, 'SUs'), P.field(cls, 'cells')
        mem = Members(ctx, F, P, cls, a, 'SUs', 'cells' if single and not vec else None) if vec or single else None
        cover = {}
        for I, st, args in a.sites:
            if method(I.get('dem') or '') != M or not mem: continue
            ctx.analysed['call_sites'] += 1
            v = tobool(args[1]) if args[1][0] != 'P' or True else None
            rg = mem.range(I, st, args[0])
            if rg is None: ctx.undecided(n, 'receiver of the call at %s not understood' % F.loc(I)); cover.setdefault(I['id'], None); continue
            if rg != 'all': ctx.undecided(n + ' partial', '%s at %s' % (rg, F.loc(I))); cover.setdefault(I['id'], rg); continue
            ctx.check(n + ' same choice', v == arg, '%s hands %s to its members instead of the choice it was given (%s)' % (n, show(args[1]), F.loc(I)), F.loc(I))
            cover[I['id']] = 'all'
        for e in a.exits:
            if e['kind'] != 'ret': continue
            v = tobool(a.read(e['st'], a.this, f[0]))
            x, y = a.query(e['st'], v), a.query(e['st'], arg)
            ctx.check(n + ' own flag', v == arg or (x is not None and x == y), '%s returns at %s with the own flag %s instead of the choice it was given' % (n, F.loc(e['I']), show(v)), F.loc(e['I']))
            if not mem: continue
            called = {i for k, i in e['st'].ps if k == 'call'} | {i for i in cover if ('loop', (F.loopof[F.blk[i]] or {'header': None})['header']) in e['st'].ps}
            got = [cover.get(i) for i in called]
            if 'all' in got: ctx.ok(n + ' members'); continue
            if mem.empty(e['st']): ctx.ok(n + ' no members'); continue
            if None in got: ctx.undecided(n, 'member calls not understood'); continue
            ctx.violation(n + ' members', '%s returns at %s %s' % (n, F.loc(e['I']), 'without applying the choice to its members' if not got else 'having applied the choice to ' + str(got[0])), F.loc(e['I']))
