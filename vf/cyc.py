"""Model of the unit connected to a cycler, for the phase functions of Cycler.

Ghost counters accumulate what the steps that were taken moved; a set of current readings says which voltages and currents still describe the unit."""
from .core import *
from .interp import Hooks
from .loops import Loops, method, subst_atoms
from . import term as T, pit

GH = ('ghost',)
NAMES = ('time', 'Ah', 'Wh')

def offsets(ctx):
    """offsets of the three counters in a ThroughputData, from its accessors"""
    rs = []
    for m in NAMES:
        f = ctx.find(r'slide::State<0ul, 3ul>::%s\(\)$' % m)
        if not f: return None
        rs.append(dict(name=m, cls='', fn=f[0]['name']))
    P = ctx.load(rs); r = {}
    for m in NAMES:
        F = P.fn(m); a = ctx.ai(F, P, Hooks())
        v = [e['val'] for e in a.exits if e['kind'] == 'ret']
        if len(v) != 1 or v[0][0] != 'ptr' or v[0][1] != a.this or not is_const(v[0][2]): return None
        r[m] = int(cval(v[0][2]))
    return r

class Unit(Hooks):
    """every virtual call of the unit leaves the memory of the caller alone except for what it returns by reference"""
    K = 256
    def __init__(self, off, full=False): self.off = off; self.full = full; self.thb = None; self.rd = {}; self.steps = {}; self.dom = {}
    def init(self, ai, st):
        o = st.obj(A(GH), True)
        for k in range(3): o.cells[8 * k] = (ZERO, 8)
        st.ps = (frozenset(), frozenset(), '')
        self.I = None
    def counters(self, ai, st):
        r = tuple(ai.read(st, A(GH), 8 * k) for k in range(3))
        return r + (tuple(ai.read(st, self.thb, self.off[m]) for m in NAMES) if self.thb is not None else ())
    def preds(self, ai, st): return ()
    def key(self, ai, st, blk):
        if blk in ai.F.loops: return None
        k = self.counters(ai, st)
        if self.full or not any(blk in L['body'] for L in ai.F.loops.values()): return k + (frozenset(st.facts.items()), frozenset(st.bf.items()))
        return k + self.preds(ai, st)
    def exitkey(self, ai, st): return self.key(ai, st, -1)
    def enter(self, ai, st, src, blk):
        if blk in ai.F.loops: st.ps = (frozenset(), frozenset(), '')
    def joinps(self, a, b): return (a[0] & b[0], a[1] & b[1], a[2] if a[2] == b[2] else '?')
    def call(self, ai, st, I, callee, args):
        if callee.startswith('slide::Cycler::CC(') or callee.startswith('slide::Cycler::CV(') or callee.startswith('slide::Cycler::rest('): return self.phase(ai, st, I, callee, args)
        if not callee.startswith('vcall:slide::StorageUnit#'): return None
        m = method(callee); V, Cu, ev = st.ps; t = atom(('call', I['id'], callee)); thr = '_ZTIi'
        def fail(why=ev, V=frozenset(), C=frozenset()):
            u = st.clone(); u.exc = thr; u.ps = (V, C, why); return (u, None, 'unw')
        if m == 'timeStep_CC':
            dt = topoly(args[1]); n = topoly(args[2]) if len(args) > 2 else const(1); out = [fail('failed')]
            u = st.clone(); u.exc = None; u.ps = (frozenset(), frozenset(), 'failed'); 
            o = st.obj(A(GH), True); o.cells[0] = (add(topoly(o.cells[0][0]), mul(dt, n)), 8)
            # steps are kept apart from anything else by one marker per call
            st.ps = (frozenset(), frozenset(), 'step'); self.steps[I['id']] = (dt, n)
            return [(st, None, 'ret')] + out
        if m in ('setCurrent', 'setVoltage'):
            out = [fail()]; st.ps = (frozenset(), frozenset(), ev)
            return [(st, t, 'ret')] + out
        if m == 'V': st.ps = (V | {I['id']}, Cu, ev); self.rd[I['id']] = 'V'; return [(st, t, 'ret')]
        if m == 'I': st.ps = (V, Cu | {I['id']}, ev); self.rd[I['id']] = 'I'; return [(st, t, 'ret')]
        if m == 'checkVoltage':
            st.ps = (V | {-I['id']}, Cu, ev); self.rd[-I['id']] = 'V'
            if args[1][0] == 'ptr': ai.store(st, args[1], atom(('rdV', I['id'])), 8, I)
            return [(st, t, 'ret')]
        if m in ('getStates',): return None
        if I['ty'] == 'void': t = None
        elif I['ty'] == 'ptr': t = ptr(('call', I['id'], callee))
        elif I['ty'] == 'i1': t = tobool(t)
        return [(st, t, 'ret')]
    def phase(self, ai, st, I, callee, args):
        th = args[-1]; m = method(callee)
        u = st.clone(); u.exc = '_ZTIi'
        if th[0] == 'ptr' and is_const(th[2]):
            for k, x in enumerate(NAMES):
                d = atom(('did', I['id'], x))
                ai.store(st, (th[0], th[1], add(th[2], const(self.off[x]))), add(topoly(ai.load(st, (th[0], th[1], add(th[2], const(self.off[x]))), 8, I)), d), 8, I)
                o = st.obj(A(GH), True); o.cells[8 * k] = (add(topoly(o.cells[8 * k][0]), d), 8)
        return [(st, atom(('call', I['id'], callee)), 'ret'), (u, None, 'unw')]
    def readings(self, st, what):
        """terms that read the present voltage (0) or current (1)"""
        r = {}
        for i in st.ps[what]:
            if i < 0: r[i] = atom(('rdV', -i))
            else: r[i] = None
        return r

def term(a, i):
    """value of a reading"""
    if i < 0: return atom(('rdV', -i))
    return atom(('call', i, a.F.ins[i].get('dem') or '?'))

def load(ctx, names, never=()):
    rs = []
    for n in names:
        f = ctx.find(r'^(?:[\w:]+ )?slide::Cycler::%s\(' % n)
        if n == 'testCapacity': f = [x for x in f if x['dem'].endswith('(double&, double&)')]
        if not f: ctx.undecided('Cycler::' + n, 'not found'); continue
        rs.append(dict(name='Cycler::' + n, cls='', fn=f[0]['name']))
    return ctx.load(rs, never=list(never)), [r['name'] for r in rs]
