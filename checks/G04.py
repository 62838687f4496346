"""G04: every status has one meaning everywhere."""
TECH = 'decision of status predicates and messages for every enumerator from their IR'
NOTE = 'All enumerators of Status are pushed through every status predicate and the message table.'
from vf.core import *
from vf.dtab import Paths

def run(ctx):
    ctx.rule = ('the set of status values each question accepts is computed from the comparisons on its paths (interval facts on the argument) and must be the documented set, the documented sets must partition '
                'the values consistently with the severity order of the enumeration, and the message table must give every value a message of its own')
    ctx.assume = ['the enumeration\'s debug information lists its values']
    Q = ['isStatusSuccessful', 'isStatusFailed', 'isStatusOK', 'isStatusBad', 'isStatusWarning', 'isStatusSafe', 'isLimitsReached', 'isStatusVoltageLimitsViolated',
         'isCCLimitReached', 'isCVLimitReached', 'isCurrentLimitReached', 'isVoltageLimitReached']
    roots = [dict(name=q, cls='', re=r'^slide::%s\(slide::Status\)' % q) for q in Q + ['getStatusMessage']]
    P = ctx.load(roots)
    E = P.enum('slide::Status')
    alias = {'Critical', 'NotSafe'}
    names = {k: v for k, v in E.items() if k not in alias}
    inv = {}
    for k, v in names.items(): inv.setdefault(v, []).append(k)
    for v, ks in inv.items(): ctx.check('value of ' + ks[0], len(ks) == 1, 'the statuses %s share the value %d' % (', '.join(ks), v))
    order = [['ReachedCurrentLimit', 'ReachedVoltageLimit', 'ReachedTimeLimit', 'ReachedSmallCurrent', 'Invalid_Vset', 'SafeVoltage'], ['Success'], ['Vmin_violation', 'Vmax_violation'],
             ['VMIN_violation', 'VMAX_violation'], ['VMINsafety_violation', 'VMAXsafety_violation'],
             ['V_not_calculated', 'SOC_limits_violation', 'Invalid_states', 'Invalid_SUs', 'ParallelUnit_failed', 'RedistributeCurrent_failed', 'timeStep_CC_failed', 'setVoltage_not_defined', 'Unknown_problem']]
    known = [x for l in order for x in l]
    if any(x not in names for x in known): ctx.undecided('enumeration', 'missing %s' % [x for x in known if x not in names]); return
    for a, b in zip(order, order[1:]):
        for x in a:
            for y in b: ctx.check('order %s %s' % (x, y), names[x] < names[y], '%s is not less severe than %s' % (x, y))
    ctx.check('zero', names['Success'] == 0, 'Success is not zero')
    fine = set(order[0] + order[1] + order[2]); allv = set(known)
    want = {'isStatusSuccessful': {'Success'}, 'isStatusFailed': allv - {'Success'}, 'isStatusOK': fine, 'isStatusBad': allv - fine, 'isStatusWarning': fine - {'Success'},
            'isStatusSafe': fine | set(order[3]), 'isLimitsReached': {'ReachedCurrentLimit', 'ReachedVoltageLimit', 'ReachedTimeLimit'},
            'isStatusVoltageLimitsViolated': set(order[2] + order[3] + order[4]), 'isCCLimitReached': {'ReachedVoltageLimit', 'ReachedTimeLimit'},
            'isCVLimitReached': {'ReachedCurrentLimit', 'ReachedTimeLimit'}, 'isCurrentLimitReached': {'ReachedCurrentLimit'}, 'isVoltageLimitReached': {'ReachedVoltageLimit'}}
    for q in Q:
        F = P.fn(q)
        if F is None: ctx.undecided(q, 'not found'); continue
        a = ctx.ai(F, P, Paths()); arg = atom(('arg', F.args[0]['id']))
        acc = {}
        for e in a.exits:
            for n in known:
                for s in a.assume(e['st'], rel(arg, const(names[n]), EQ, 7), True):
                    if e['kind'] != 'ret': acc.setdefault(n, set()).add('raises'); continue
                    r = a.query(s, tobool(e['val'])); acc.setdefault(n, set()).add(r)
        for n in known:
            r = acc.get(n, set())
            if len(r) != 1 or None in r: ctx.undecided('%s(%s)' % (q, n), 'answer not determined %s' % r); continue
            r = next(iter(r))
            ctx.check('%s(%s)' % (q, n), r is (n in want[q]), '%s answers %s for %s' % (q, r, n), F.loc(None))
    F = P.fn('getStatusMessage')
    if F is None: ctx.undecided('getStatusMessage', 'not found'); return
    a = ctx.ai(F, P, Paths()); arg = atom(('arg', F.args[0]['id'])); msg = {}
    spare = max(names.values())
    used = set(names.values()); other = next(v for v in range(-128, 128) if v not in used)
    def text(v):
        r = set()
        for e in a.exits:
            for s in a.assume(e['st'], rel(arg, const(v), EQ, 7), True):
                t = e['val']; r.add(toptr(t) if t is not None else None)
        return r
    dflt = text(other)
    for n in known:
        r = text(names[n])
        if len(r) != 1 or AT[next(iter(r))[1]][0] != 'glob': ctx.undecided('message of ' + n, 'not determined'); continue
        m = next(iter(r)); msg.setdefault(m, []).append(n)
        ctx.check('message of ' + n, m not in dflt, 'the status %s has no message of its own (it gets the one for unknown values)' % n, F.loc(None))
    for m, ns in msg.items(): ctx.check('message ' + ns[0], len(ns) == 1, 'the statuses %s share one message' % ', '.join(ns), F.loc(None))
