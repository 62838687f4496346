"""C01: set-point refusal leaves a cell unchanged."""
TECH = 'abstract interpretation of the inlined IR: value-numbered dataflow of object state to every refusing exit'
NOTE = 'Every return and exception exit of every set-point operation of the four cell classes is enumerated with the abstract object state; a refusing exit must carry the entry value in every field.'
from vf.core import *
from vf.interp import Hooks

def run(ctx):
    ctx.rule = ('for every cell class and every public set-point operation: at every return whose status is bad (>= VMIN_violation), and at every exception exit, '
                'each memory cell of the object (cached voltage pair excepted) holds its value number at entry; every return status is one the analysis can classify')
    ctx.assume = ['stream output, string handling and allocation do not fail', 'the caller\'s state vector does not alias the cell', 'real arithmetic']
    roots = []
    fns = ['setCurrent', 'setSOC', 'setVoltage', 'setStates']
    for c, m in CELLS.items():
        for f in fns:
            if c == 'Cell_SPM' and f == 'setVoltage':
                roots.append(dict(name=c + '::' + f, cls=m, re=r'^slide::(Cell_SPM|Cell|StorageUnit)::setVoltage\(')); continue
            roots.append(dict(name=c + '::' + f, cls=m, re=r'^slide::%s::%s\(' % (demcls(c), f)))
    P = ctx.load(roots)
    st = P.enum('slide::Status') if 'slide::Status' in P.classes else {}
    BAD = st.get('VMIN_violation', 3)
    for r in roots:
        n = r['name']; F = P.fn(n)
        if F is None: ctx.undecided(n, 'function not found'); continue
        cls = 'slide::' + n.split('::')[0]
        h = Hooks(); h.K = 64; h.collect = False
        a = ctx.ai(F, P, h, cls)
        lay = P.layout(cls) or P.layout(demcls(cls))
        cache = cache_range(P, cls)
        nbad = 0; nok = 0
        for e in a.exits:
            s = e['st']
            ch = [x for x in a.changed(s, a.this) if not any(lo <= x[0] and x[1] <= hi for lo, hi in cache)]
            ch = [x for x in ch if not covered(a, s, x, cache)]
            if e['kind'] == 'ret':
                lo, hi = a.ival(s, e['val'])
                if hi < BAD:
                    nok += 1
                    if not ch and n.split('::')[1] != 'setVoltage':
                        ctx.violation(n + ' success without effect', '%s returns the accepting status %s at %s although the requested value was not applied (a refusal is reported as success)' % (n, show(e['val']), F.loc(e['I'])), F.loc(e['I']))
                    continue
                if lo < BAD:
                    if not ch: continue
                    if nofact(e['val']): 
                        ctx.violation(n + ' returns an unrelated status', 'the status returned by %s at %s is not tied to the outcome of its validation while %s has changed' % (n, F.loc(e['I']), names(P, cls, ch)), F.loc(e['I']))
                        continue
                    ctx.undecided(n, 'status %s cannot be classified at %s' % (show(e['val']), F.loc(e['I']))); continue
            nbad += 1
            what = 'refusal (status %s)' % show(e['val']) if e['kind'] == 'ret' else 'exception'
            if ch:
                ctx.violation(n + ' leaves ' + names(P, cls, ch), '%s: at a %s from %s the cell keeps a changed %s' % (n, what, F.loc(e['I']), names(P, cls, ch)), F.loc(e['I']))
            else: ctx.ok('%s %s %s' % (n, what, F.loc(e['I'])))
        if nbad == 0 and not ctx.viol: ctx.undecided(n, 'no refusing exit found')
        if nok == 0: ctx.undecided(n, 'no accepting exit found')

def nofact(t): return False

def cache_range(P, cls):
    r = []
    for f in ('st.V', 'Vcell_valid'):
        pass
    x = P.field(cls, 'Vcell_valid')
    if x: r.append((x[0], x[0] + x[1]))
    # the cached voltage is the member of the state returned by State_SPM::V()
    s = P.field(cls, 'st')
    if x and s: r.append((s[0] + 8, s[0] + 16))
    return r

def covered(a, s, x, cache): return False

def names(P, cls, ch):
    return ', '.join(sorted({P.fname(cls, int(x[0])) if x[0] > -1e9 else 'whole object' for x in ch}))
