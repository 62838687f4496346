"""Decision tables: the outcomes of a function's exits against an oracle over atomic conditions.

For every exit of the abstract interpretation the truth value of each atomic condition is looked up in the exit's facts; conditions the path does not
determine are enumerated as long as the fact table accepts them.  The oracle names the acceptable outcomes of each combination (None: don't care)."""
from .term import *
from .interp import Hooks

class Paths(Hooks):
    """keeps every combination of facts apart (functions without loops that matter)"""
    K = 512; collect = False
    def key(self, ai, st, blk):
        if blk in ai.F.loops: return None
        return frozenset(st.facts.items()) | frozenset(st.bf.items())
    def exitkey(self, ai, st): return (frozenset(st.facts.items()), frozenset(st.bf.items()))
    def joinps(self, a, b): return ()

def cases(ai, st, preds, limit=4096):
    """all assignments of the atomic conditions consistent with the facts of a state"""
    out = [({}, st)]
    for n, b in preds.items():
        nxt = []
        for d, s in out:
            q = ai.query(s, b)
            if q is not None: nxt.append(({**d, n: q}, s)); continue
            for v in (True, False):
                for s2 in ai.assume(s, b, v): nxt.append(({**d, n: v}, s2))
        out = nxt
        if len(out) > limit: return None
    return out

def dedupe(cs):
    seen = set()
    for d, s in cs:
        k = tuple(sorted(d.items()))
        if k not in seen: seen.add(k); yield d, s

def table(ctx, ai, name, preds, oracle, outcome, F, exits=None, describe=None):
    """oracle(d) -> set of acceptable outcomes or None; outcome(exit, state) -> outcome or None when it cannot be told"""
    n = 0; seen = set(); bad = set()
    for e in exits if exits is not None else ai.exits:
        cs = cases(ai, e['st'], preds)
        if cs is None: ctx.undecided(name, 'too many cases'); continue
        for d, s in cs:
            want = oracle(d)
            if want is None: continue
            got = outcome(e, s)
            key = (tuple(sorted(d.items())), got)
            if key in seen: continue
            seen.add(key)
            if got is None: ctx.undecided(name, 'outcome not determined at %s' % F.loc(e['I'])); continue
            n += 1
            if got in want: ctx.ok('%s %s' % (name, got), ' '.join(('' if v else 'not ') + k + ',' for k, v in d.items()))
            else:
                k = '%s gives %s instead of %s' % (name, got, '/'.join(map(str, sorted(want, key=str))))
                if k not in bad:
                    bad.add(k)
                    ctx.violation(k, '%s when %s (%s)' % (k, ', '.join(('' if v else 'not ') + q for q, v in d.items()), F.loc(e['I'])), F.loc(e['I']))
    return n
