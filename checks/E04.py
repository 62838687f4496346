"""E04: a capacity test leaves the tested unit as it found it."""
TECH = 'typestate analysis of the capacity test over all exits, error exits included: saved / moved / restored, with value tracking of the saved vector and of the charges reported'
NOTE = ('On every path - success, a phase that stops early, an error raised by a phase - the state vector read before the first operation on the unit is written back after the last one, without a voltage check that could refuse it. '
        'That writing back a state vector restores the unit is C03; the accuracy of the measured capacity is not judged.')
from vf.cyc import *

RD = {'V', 'I', 'T', 'Cap', 'Vmin', 'Vmax', 'VMIN', 'VMAX', 'getStates', 'viewStates', 'getFullID', 'getOCV', 'getRtot', 'getVhigh', 'getVlow', 'getThotSpot', 'getNcells', 'isCharging', 'isDischarging', 'storeData', 'writeData', '~', 'checkVoltage', 'checkCurrent', 'getThermalSurface'}

class H(Unit):
    K = 256
    def init(self, ai, st): super().init(ai, st); st.ps = ('new', None, None); self.run = {}
    def key(self, ai, st, blk): return None if blk in ai.F.loops else self.phases(ai, st)
    def exitkey(self, ai, st): return self.key(ai, st, -1)
    def preds(self, ai, st): return ()
    def phases(self, ai, st):
        return tuple(st.facts.get(topoly(atom(('call', i, ai.F.ins[i].get('dem'))))) for i in sorted(self.run))
    def enter(self, ai, st, src, blk):
        if any(I['op'] == 'phi' and I['ty'] == 'double' for I in ai.F.blocks[blk]): st.ps = st.ps[:2] + (src,)
    def joinps(self, a, b): return ('moved' if 'moved' in (a[0], b[0]) else '?', a[1] if a[1] == b[1] else None, None)
    def may_throw(self, ai, st, I, callee): return False
    def move(self, st): st.ps = ({'new': 'lost', 'saved': 'moved', 'restored': 'moved'}.get(st.ps[0], st.ps[0]), st.ps[1], st.ps[2])
    def call(self, ai, st, I, callee, args):
        m = method(callee)
        if re.search(r'slide::Cycler::\w+\(', callee) and m in ('CC', 'CV', 'rest', 'CCCV', 'CCCV_with_tlim'):
            self.move(st); r = self.phase(ai, st, I, callee, args); self.run.setdefault(I['id'], []).append(args); return r
        if re.search(r'slide::Cycler::(setCurrent|Profile|storeData)\(', callee):
            if m != 'storeData': self.move(st)
            u = st.clone(); return [(st, atom(('call', I['id'], callee)), 'ret'), (u, None, 'unw')]
        if not callee.startswith('vcall:slide::StorageUnit#'): return None
        t = None if I['ty'] == 'void' else ptr(('call', I['id'], callee)) if I['ty'] == 'ptr' else atom(('call', I['id'], callee))
        if I['ty'] == 'i1': t = tobool(t)
        if m == 'getStates':
            v = toptr(args[1])
            if st.ps[0] in ('new', 'restored'):
                st.ps = ('saved', None, None)
                b, e = ptr(('sv', I['id'])), add(topoly(ptr(('sv', I['id']))), scale(atom(('svn', I['id'])), 8))
                ai.store(st, v, b, 8, I); ai.store(st, ('ptr', v[1], add(v[2], const(8))), toptr(e), 8, I)
                st.ps = ('saved', I['id'], None)
            else: ai.havoc(st, v[1], ('call', I['id']))
            u = st.clone(); return [(st, t, 'ret'), (u, None, 'unw')]
        if m == 'setStates':
            v = toptr(args[1]); d = topoly(ai.load(st, v, 8, I)); n = topoly(ai.load(st, ('ptr', v[1], add(v[2], const(8))), 8, I))
            k = st.ps[1]
            same = k is not None and d == topoly(ptr(('sv', k)))
            full = k is not None and n == atom(('svn', k))
            chk = tobool(args[2]) if len(args) > 2 else None
            self.rest.append((I, same, full, chk == FALSE, st.ps[0]))
            st.ps = ('restored' if same else 'moved', k, None)
            return [(st, t, 'ret')]
        if m not in RD: self.move(st)
        u = st.clone()
        return [(st, t, 'ret')] + ([] if m in RD or I['op'] != 'invoke' else [(u, None, 'unw')])

def run(ctx):
    ctx.rule = ('every exit of testCapacity, by return or by error: the state vector of the unit was read before the first operation that moves it, and written back unchanged, complete and without a voltage check after the last one; a return after both phases reached their voltage limit gives the charge of the discharge to Vmin and the sum of both phases, any other 0')
    ctx.assume = ['reading a unit does not fail', 'writing back its own state vector restores the unit (C03)', 'output to streams does not fail']
    off = offsets(ctx)
    if off is None: ctx.undecided('ThroughputData', 'counters not found'); return
    P, ns = load(ctx, ['testCapacity'], never=[r'slide::Cycler::(CC|CV|rest|CCCV|CCCV_with_tlim|setCurrent|storeData|Profile)\('])
    for n in ns:
        F = P.fn(n)
        if F is None: ctx.undecided(n, 'not found'); continue
        h = H(off); h.rest = []; a = ctx.ai(F, P, h, 'slide::Cycler')
        refs = [A(('arg', x['id'])) for x in F.pargs[1:] if x['ty'] == 'ptr']
        if not h.run: ctx.undecided(n, 'no phase found'); continue
        sites = {}
        for I, st, args in a.sites: sites.setdefault(I['id'], []).append((st, args))
        nexc = 0
        for e in a.exits:
            st = e['st']; how = 'returns' if e['kind'] == 'ret' else 'is left by an error'
            key = '%s restores the unit (%s)' % (n, e['kind']); s = st.ps[0]; nexc += e['kind'] != 'ret'
            if s in ('new', 'saved', 'restored'): ctx.ok(key)
            elif s == 'lost': ctx.violation(key, '%s changes the unit before its state was saved' % n, F.loc(e['I']))
            elif s == 'moved': ctx.violation(key, '%s %s at %s without putting the unit back to the saved state' % (n, how, F.loc(e['I'])), F.loc(e['I']))
            else: ctx.undecided(key, str(st.ps))
        for I, same, full, nochk, was in h.rest:
            if not same: continue
            ctx.check(n + ' restores the whole vector', full, '%s writes back only part of the saved state at %s' % (n, F.loc(I)), F.loc(I))
            ctx.check(n + ' restores without a voltage check', nochk, '%s writes back the state at %s with a check that may refuse it' % (n, F.loc(I)), F.loc(I))
        for I, st, tgt, val in a.stores:
            b = AT[tgt[1]]
            if b[0] == 'sv': ctx.violation(n + ' keeps the saved vector', '%s overwrites the saved state at %s' % (n, F.loc(I)), F.loc(I))
        result(ctx, F, n, a, h, sites, refs)

def arg_is(t, meth):
    x = as_atom(topoly(t))
    return x is not None and AT[x][0] == 'call' and method(AT[x][2]) == meth

def result(ctx, F, n, a, h, sites, refs):
    """what is reported"""
    if len(refs) < 2: ctx.undecided(n + ' result', 'arguments not understood'); return
    info = {}
    for i in h.run:
        for st, args in sites.get(i, []):
            v = 'Vmin' if any(arg_is(x, 'Vmin') for x in args[1:]) else 'Vmax' if any(arg_is(x, 'Vmax') for x in args[1:]) else None
            c = topoly(args[1]); sg = None
            if len(c[1]) == 1: sg = 1 if c[1][0][1] > 0 else -1
            info[i] = (v, sg)
    ctx.check(n + ' charges and discharges fully', {('Vmax', -1), ('Vmin', 1)} <= set(info.values()), '%s does not run a charge to Vmax and a discharge to Vmin (%s)' % (n, sorted(map(str, info.values()))), '')
    for e in a.exits:
        if e['kind'] != 'ret': continue
        st = e['st']; v = topoly(e['val']); done = []
        x = as_atom(v)
        key = n + ' result'
        if v == ZERO:
            full = len(info) > 1 and all(a.query(st, rel(atom(('call', j, F.ins[j].get('dem'))), const(-5), EQ, 7)) is True for j in info)
            ctx.check(key + ' of a failed test', not full, '%s returns 0 at %s although both phases reached their voltage' % (n, F.loc(e['I'])), F.loc(e['I'])); continue
        if x is None or AT[x][0] != 'did' or AT[x][2] != 'Ah':
            (ctx.violation if not any(AT[y][0] in ('hv', 'undef', 'j', 'jm') for y in T.atoms(v)) else lambda k, m, w: ctx.undecided(k, m))(key, '%s returns %s instead of the charge of the full discharge' % (n, show(v)[:120]), F.loc(e['I'])); continue
        i = AT[x][1]
        ctx.check(key, info.get(i) == ('Vmin', 1), '%s returns the charge of the phase at %s, which is not the full discharge' % (n, F.loc(F.ins[i])), F.loc(e['I']))
        for j in info:
            q = a.query(st, rel(atom(('call', j, F.ins[j].get('dem'))), const(-5), EQ, 7))
            if q is True: ctx.ok(key + ' after full phases')
            elif q is None: ctx.violation(key + ' after full phases', '%s reports a capacity at %s although the phase at %s may not have reached its voltage' % (n, F.loc(e['I']), F.loc(F.ins[j])), F.loc(e['I']))
        tot = topoly(a.read(st, refs[0], 0)); w = ZERO
        for j in info: w = add(w, atom(('did', j, 'Ah')))
        d = sub(tot, w)
        if d == ZERO: ctx.ok(key + ' total charge')
        elif any(AT[y][0] in ('hv', 'undef', 'j', 'jm') for y in T.atoms(d)): ctx.undecided(key + ' total charge', show(tot)[:120])
        else: ctx.violation(key + ' total charge', '%s reports a total charge of %s' % (n, show(tot)[:150]), F.loc(e['I']))
