"""D06: impossible temperatures and mismatched thermal clocks are reported."""
TECH = 'abstract interpretation of the thermal balances: facts about the computed temperature and the two clocks on every path to a store, a return or the balance of a child'
NOTE = ('For every compile-time thermal model, each returning path of a balance must have established that the temperature it returns lies within the allowed range and is a number (or return the temperature it had), each store of a coolant temperature and each use of the '
        'battery temperature must be behind such a check, and no path evaluates a coupled balance without having compared the clocks.')
from vf.core import *
from vf.interp import Hooks
from vf.loops import Loops, method
from vf import term as T
from checks_util import other
D05 = other('D05')
LO, HI = 273.0, 348.15

def run(ctx):
    ctx.rule = ('thermalModel (T_MODEL 1, 2): on every returning path the value v satisfies Tmin <= v <= Tmax as a fact that excludes NaN, or is the temperature at entry; coupled balances: |own clock - given clock| <= 1 s is a fact '
                'at every returning path and before a child is balanced; Tcoolant is only written with a value known to be within 0 and 75 degrees; Battery sets temperatures only after the check')
    ctx.assume = ['real arithmetic', 'output to streams does not fail']
    for conf in ctx.confs():
        if not conf: continue
        cell(ctx, conf); pack(ctx, conf); battery(ctx, conf)
    cool(ctx)

class H(D05.H):
    collect = True
    K = 96

def limits(ctx, conf):
    r = {}
    P = ctx.load([dict(name=n, cls='', fn=f['name']) for n in ('vfw_t1', 'vfw_t2') for f in ctx.find(r'^%s\(' % n)], conf=conf)
    for n in ('vfw_t1', 'vfw_t2'):
        F = P.fn(n)
        if F is None: return None
        a = ctx.ai(F, P, H(), None); v = {topoly(e['val']) for e in a.exits}
        if len(v) != 1 or not is_const(list(v)[0]): return None
        r[n] = cval(v.pop())
    return r['vfw_t1'], r['vfw_t2']

def inside(a, st, v, lo, hi):
    """True: known to be a number within the limits; False: known not to be; None: not known"""
    v = topoly(v)
    q = a.query(st, rel(v, const(lo), GT | EQ, 15)); w = a.query(st, rel(v, const(hi), LT | EQ, 15))
    if q is True and w is True: return True
    if q is False or w is False: return False
    return None

def clock(a, st, own, tim):
    d = topoly(fabs(sub(own, tim)))
    return a.query(st, rel(d, const(1), GT, 15)) is False

def judge(ctx, key, a, F, st, v, lo, hi, T0, I, what):
    v = topoly(v)
    q = inside(a, st, v, lo, hi)
    if q is True: ctx.ok(key); return
    if any(AT[y][0] in ('hv', 'undef') for y in T.atoms(v)): ctx.undecided(key, show(v)[:120]); return
    ctx.violation(key, '%s without being known to lie within %g K and %g K: %s' % (what, lo, hi, show(v)[:90]), F.loc(I))

def cell(ctx, conf):
    t = D05.tag(conf); n = 'Cell_SPM::thermalModel'; CLS = 'slide::Cell_SPM'
    lim = limits(ctx, conf)
    if lim is None: ctx.undecided(n, 'temperature limits not found'); return
    P = D05.load(ctx, 'Cell_SPM', conf); F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    a = ctx.ai(F, P, H(), CLS, loops=True); th = a.this; f = P.field(CLS, 'Therm_time')
    for e in a.exits:
        if e['kind'] != 'ret': continue
        judge(ctx, '%s (%s) returns a possible temperature' % (n, t), a, F, e['st'], e['val'], lim[0], lim[1], None, e['I'], '%s (%s) returns a temperature' % (n, t))
        if t == 'T_MODEL 2' and f:
            key = '%s (%s) compares the clocks' % (n, t)
            if clock(a, e['st'], atom(('E', th, f[0])), atom(('arg', F.args[-1]['id']))): ctx.ok(key)
            else: ctx.violation(key, '%s (%s) returns a temperature although its clock and the given time may differ by more than a second' % (n, t), F.loc(e['I']))

def pack(ctx, conf):
    t = D05.tag(conf)
    for k in ('Module_s', 'Module_p'):
        n = k + '::thermalModel'; cls = 'slide::' + k
        P = D05.load(ctx, k, conf); F = P.fn(n)
        if F is None: ctx.undecided(n, 'not found'); continue
        a = ctx.ai(F, P, H(), cls, loops=True); th = a.this; f = P.field(cls, 'therm.time')
        tim = atom(('arg', F.args[-1]['id']))
        for e in a.exits:
            if e['kind'] != 'ret': continue
            v = topoly(e['val']); key = '%s (%s) returns a possible temperature' % (n, t)
            if myT(a, v, th): ctx.ok(key)
            else: judge(ctx, key, a, F, e['st'], v, LO, HI, None, e['I'], '%s (%s) returns a temperature' % (n, t))
            if t == 'T_MODEL 2':
                key = '%s (%s) compares the clocks' % (n, t)
                if clock(a, e['st'], atom(('E', th, f[0])), tim): ctx.ok(key)
                else: ctx.violation(key, '%s (%s) returns although its clock and the given time may differ by more than a second' % (n, t), F.loc(e['I']))
        if t == 'T_MODEL 2':
            for I, st, args in a.sites:
                if I['op'] not in ('call', 'invoke') or method(I.get('dem') or '') not in ('thermalModel', 'dstate', 'setT'): continue
                key = '%s (%s) compares the clocks before %s' % (n, t, method(I['dem']))
                if clock(a, st, atom(('E', th, f[0])), tim): ctx.ok(key)
                else: ctx.violation(key, '%s (%s) evaluates the balance (%s) although the clocks may differ by more than a second' % (n, t, method(I['dem'])), F.loc(I))

def myT(a, v, th):
    """the temperature of the pack itself: T() of this"""
    if v[0] != 'P' or len(v[1]) != 1 or v[1][0][1] != 1 or len(v[1][0][0]) != 1: return False
    x = AT[v[1][0][0][0][0]]
    if x[0] == 'call' and method(x[2]) == 'T':
        I = a.F.ins[x[1]]; r = I['args'][0]
        return r[0] == 'v' and r[1] == a.F.this['id'] if isinstance(a.F.this, dict) else r[0] == 'v' and r[1] == a.F.this
    return False

def battery(ctx, conf):
    t = D05.tag(conf); n = 'Battery::thermalModel'
    P = ctx.load(ctx.roots('Battery', ['thermalModel']), opaque=[r'slide::Module::', r'slide::StorageUnit::', r'slide::Converter::'], never=[r'slide::CoolSystem[A-Za-z_]*::', r'slide::Battery::(setT|V|I|T|getThermalSurface|getFullID)\('], force=[r'^slide::Battery::'], conf=conf)
    F = P.fn(n)
    if F is None: ctx.undecided(n, 'not found'); return
    a = ctx.ai(F, P, H(), 'slide::Battery', loops=True)
    for e in a.exits:
        if e['kind'] == 'ret': judge(ctx, '%s (%s) returns a possible temperature' % (n, t), a, F, e['st'], e['val'], LO, HI, None, e['I'], '%s (%s) returns a temperature' % (n, t))
    ds = {I['id'] for I, st, args in a.sites if I['op'] in ('call', 'invoke') and method(I.get('dem') or '') == 'dstate'}
    ns = 0
    for I, st, args in a.sites:
        if I['op'] not in ('call', 'invoke') or method(I.get('dem') or '') != 'setT': continue
        ns += 1; key = '%s (%s) sets temperatures after the check' % (n, t)
        new = [e for e in a.exits if e['kind'] == 'ret']
        vs = {topoly(e['val']) for e in new}
        if any(inside(a, st, v, LO, HI) is True for v in vs): ctx.ok(key)
        else: ctx.violation(key, '%s (%s) stores a temperature before the new temperature of the battery was found possible' % (n, t), F.loc(I))
    if ns < 2: ctx.undecided(n, 'setting of the temperatures not found')

def cool(ctx):
    """every write of the coolant temperature"""
    for k in COOLS:
        rs = []; seen = set()
        for f in ctx.find(r'^(?:[\w:<>*&, ]+ )?slide::(%s|CoolSystem)::~?\w+\(' % k):
            mm = re.search(r'slide::(?:\w+)::(~?\w+)\(', f['dem'])
            if not mm or '~' in mm.group(1) or '$_' in f['dem'] or f['name'] in seen: continue
            seen.add(f['name']); rs.append(dict(name=k + '::' + mm.group(1) + '@' + f['name'], cls=COOLS[k] if isinstance(COOLS, dict) else '', fn=f['name']))
        P = ctx.load(rs); CLS = 'slide::' + k; fo = P.field(CLS, 'Tcoolant')
        if fo is None: ctx.undecided(k, 'Tcoolant not found'); continue
        for r in rs:
            F = P.fn(r['name']); n = r['name'].split('@')[0]
            if F is None or F.this is None: continue
            a = ctx.ai(F, P, H(), CLS); ctor = re.match(r'CoolSystem\w*$', n.split('::')[1])
            for e in a.exits:
                v = topoly(a.read(e['st'], a.this, fo[0])); key = n + ' coolant temperature'
                if v == topoly(atom(('E', a.this, fo[0]))): ctx.ok(key)
                elif ctor and v[0] == 'P' and len(v[1]) == 1 and v[1][0][1] == 1 and len(v[1][0][0]) == 1 and AT[v[1][0][0][0][0]][0] == 'E' and AT[v[1][0][0][0][0]][2] == fo[0]: ctx.ok(key)   # copied from another cooling system
                elif inside(a, e['st'], v, LO, HI) is True: ctx.ok(key)
                elif is_const(v) and LO <= cval(v) <= HI: ctx.ok(key)
                elif any(AT[y][0] in ('hv', 'undef') for y in T.atoms(v)): ctx.undecided(key, show(v)[:100])
                elif ctor and not any(AT[y][0] == 'arg' for y in T.atoms(v)): ctx.undecided(key, show(v)[:100])
                else: ctx.violation(key, '%s stores %s as coolant temperature without a check' % (n, show(v)[:80]), F.loc(e['I']))
