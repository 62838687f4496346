"""Program representation: functions of the linked, canonicalised bitcode with control-flow structure."""
import re

class Fn:
    def __init__(self, j, prog):
        self.j = j; self.prog = prog
        self.name = j['name']; self.cls = j['cls']; self.sym = j['fn']; self.dem = j['demangled']
        self.args = j['args']; self.blocks = j['blocks']; self.n = len(self.blocks)
        self.file = j.get('file', '?'); self.line = j.get('line', 0)
        self.ins = {}
        self.blk = {}
        for b, L in enumerate(self.blocks):
            for k, I in enumerate(L):
                self.ins[I['id']] = I; self.blk[I['id']] = b; I['b'] = b; I['k'] = k
        self.succ = [self._succ(L[-1]) if L else [] for L in self.blocks]
        self.pred = [[] for _ in range(self.n)]
        for b, ss in enumerate(self.succ):
            for s in ss: self.pred[s].append(b)
        self._rpo(); self._dom(); self._loops()
        self.sret = bool(self.args and self.args[0].get('sret'))
        self.this = self.args[1 if self.sret else 0]['id'] if self.args else None
        self.pargs = self.args[(1 if self.sret else 0):]
        self._uses = None

    def _succ(self, I):
        o = I['op']
        if o == 'br': return list(dict.fromkeys(I['succ']))
        if o == 'switch': return list(dict.fromkeys([I['default']] + [c[1] for c in I['cases']]))
        if o == 'invoke': return list(dict.fromkeys([I['to'], I['unw']]))
        return []

    def _rpo(self):
        seen = set(); order = []
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); st.pop()
        self.rpo = order[::-1]; self.rpoi = {b: i for i, b in enumerate(self.rpo)}

    @staticmethod
    def domtree(n, rpo, pred, root):
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {root: root}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == root: continue
                new = None
                for p in pred[b]:
                    if p in idom and p in idx:
                        if new is None: new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]: a = idom[a]
                                while idx[c] > idx[a]: c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new: idom[b] = new; ch = True
        return idom

    def _dom(self):
        self.idom = self.domtree(self.n, self.rpo, self.pred, 0)
        # postdominators with a virtual exit n; split by exit kind is done by clients
        V = self.n
        rs = [list(p) for p in self.pred] + [[]]   # reverse graph successors = preds
        rp = [list(s) for s in self.succ] + [[]]
        for b in self.rpo:
            if not self.succ[b]: rp[b].append(V); rs[V].append(b)
        seen = set([V]); order = []; st = [(V, iter(rs[V]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen and s in self.rpoi:
                    seen.add(s); st.append((s, iter(rs[s]))); break
            else: order.append(b); st.pop()
        self.ipdom = self.domtree(V + 1, order[::-1], rp, V)

    def dominates(self, a, b):
        while True:
            if a == b: return True
            if b not in self.idom or self.idom[b] == b: return False
            b = self.idom[b]

    def postdominates(self, a, b):
        while True:
            if a == b: return True
            if b not in self.ipdom or self.ipdom[b] == b: return False
            b = self.ipdom[b]

    def dom_ins(self, i, j):
        """instruction i strictly before j on every path"""
        bi, bj = self.blk[i], self.blk[j]
        if bi == bj: return self.ins[i]['k'] < self.ins[j]['k']
        return self.dominates(bi, bj)

    def _loops(self):
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    L = self.loops.setdefault(s, {'header': s, 'latches': [], 'body': {s}})
                    L['latches'].append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in L['body']:
                            L['body'].add(x); st.extend(p for p in self.pred[x] if p in self.rpoi)
        self.loopof = {}
        for b in self.rpo:
            c = [L for L in self.loops.values() if b in L['body']]
            self.loopof[b] = min(c, key=lambda L: len(L['body'])) if c else None
        for L in self.loops.values():
            L['exits'] = [(x, s) for x in L['body'] for s in self.succ[x] if s not in L['body']]
            L['pre'] = [p for p in self.pred[L['header']] if p not in L['body']]

    def calls(self):
        for b in self.rpo:
            for I in self.blocks[b]:
                if I['op'] in ('call', 'invoke'): yield I

    def uses(self, vid):
        if self._uses is None:
            self._uses = {}
            for L in self.blocks:
                for I in L:
                    for v in operands(I):
                        if v[0] == 'v': self._uses.setdefault(v[1], []).append(I)
        return self._uses.get(vid, [])

    def loc(self, I, repo=None):
        """outermost-to-innermost: innermost repository location of an instruction"""
        l = I.get('loc') if I else None
        if not l: return '%s:%s (%s)' % (short(self.file), self.line, self.name)
        for f, ln, c, fnn in l:
            if '/src/' in f and '/usr/' not in f: return '%s:%d (%s)' % (short(f), ln, fnn or self.name)
        f, ln, c, fnn = l[-1]
        return '%s:%d (%s)' % (short(f), ln, fnn)

    def reach(self, b, avoid=()):
        seen = set(); st = [b]
        while st:
            x = st.pop()
            if x in seen or x in avoid: continue
            seen.add(x); st.extend(self.succ[x])
        return seen

def short(f):
    i = f.find('/src/')
    return f[i + 1:] if i >= 0 else f

def operands(I):
    r = []
    for k in ('ops', 'args'):
        r += [v for v in I.get(k, []) if isinstance(v, list)]
    for k in ('base', 'cond', 'calleev'):
        if k in I: r.append(I[k])
    r += [v[0] for v in I.get('var', [])] + [v[0] for v in I.get('in', [])]
    return r

class Prog:
    def __init__(self, j):
        self.j = j; self.classes = j['classes']; self.missing = j['missing']
        self.fns = {}
        self.byname = {}
        for f in j['functions']:
            F = Fn(f, self)
            self.byname.setdefault(F.name, []).append(F)
        self.index = j.get('index', []); self.vtables = j.get('vtables', {})
        self._lay = {}; self.strings = j.get('strings', {})

    def fn(self, name):
        L = self.byname.get(name)
        return L[0] if L else None

    def enum(self, cls):
        return {e['n']: e['v'] for e in self.classes[cls]['el'] if e['k'] == 'e'}

    def find_class(self, q):
        if q in self.classes: return q
        return None

    def layout(self, cls, depth=0):
        """list of (off, size, dotted name, type) of leaf and intermediate members of a class (bases flattened)"""
        if cls in self._lay: return self._lay[cls]
        out = []
        c = self.classes.get(cls) or self.classes.get(re.sub(r'<(\d+)(ul)?>', r'<\1UL>', cls))
        if c and depth < 8:
            for e in c['el']:
                if e['k'] == 'b':
                    for o, s, n, t in self.layout(e['n'], depth + 1): out.append((o + e['off'], s, n, t))
                elif e['k'] == 'm' and not e['n'].startswith('_vptr'):
                    out.append((e['off'], e['size'], e['n'], e['t']))
                    t = e['t']
                    if t in self.classes:
                        for o, s, n, tt in self.layout(t, depth + 1): out.append((o + e['off'], s, e['n'] + '.' + n, tt))
        self._lay[cls] = out
        return out

    def field(self, cls, name):
        for o, s, n, t in self.layout(cls):
            if n == name or n.endswith('.' + name): return (o, s, n, t)
        return None

    def fname(self, cls, off):
        best = None
        for o, s, n, t in self.layout(cls):
            if o <= off < o + max(s, 1):
                if best is None or s < best[1] or (s == best[1] and len(n) > len(best[2])): best = (o, s, n, t)
        if not best: return '+%d' % off
        return best[2] if best[0] == off else '%s+%d' % (best[2], off - best[0])

    def extent(self, cls, off):
        """smallest member range containing off"""
        best = None
        for o, s, n, t in self.layout(cls):
            if o <= off < o + max(s, 1) and (best is None or s < best[1]): best = (o, s)
        return (best[0], best[0] + best[1]) if best else None
