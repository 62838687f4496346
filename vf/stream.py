"""What a function writes to its output streams: tokens, lines, loops."""
import re
from .ir import *

OUT = re.compile(r'operator<<|__ostream_insert|ostream::(put|write)\(')
COUT = ('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog')

NESTED = 'nested loops within a line'

class Unk(Exception): pass

class Str:
    def __init__(self, F, strings):
        self.F = F; self.strings = strings; self.args = [a['id'] for a in F.args]
        self.toks = {}      # instruction id -> (root, [token])
        for b in F.rpo:
            for I in F.blocks[b]:
                if I['op'] in ('call', 'invoke') and OUT.search(I.get('dem') or '') and not (I.get('dem') or '').startswith('slide::'):
                    r = self.root(I['args'][0])
                    if r is None or r[0] == 'g': continue
                    self.toks[I['id']] = (r, self.tokens(I))

    # -- streams ------------------------------------------------------------
    def root(self, v, n=0):
        """('a', alloca) | ('arg', k, offsets…) | ('g', name)"""
        F = self.F
        if n > 60: return None
        if v[0] == 'g': return ('g', v[1])
        if v[0] != 'v': return None
        if v[1] in self.args: return ('arg', self.args.index(v[1]))
        I = F.ins.get(v[1])
        if I is None: return None
        if I['op'] == 'alloca': return ('a', I['id'])
        if I['op'] == 'getelementptr':
            if I.get('var'): return None
            r = self.root(I['base'], n + 1)
            if r and I['off']: return None if r[0] == 'g' else r + (('+', I['off']),)
            return r
        if I['op'] == 'load':
            w = I['ops'][0]; o = 0
            while w[0] == 'v' and F.ins.get(w[1], {}).get('op') == 'getelementptr' and not F.ins[w[1]].get('var'): o += F.ins[w[1]]['off']; w = F.ins[w[1]]['base']
            if w[0] == 'v' and F.ins.get(w[1], {}).get('op') == 'alloca':
                s = [J['ops'][0] for B in F.blocks for J in B if J['op'] == 'store' and self.place(J['ops'][1]) == (w[1], o)]
                if len(s) == 1: return self.root(s[0], n + 1)
            r = self.root(w, n + 1)
            return r + (o,) if r and r[0] != 'g' else None
        if I['op'] in ('call', 'invoke') and OUT.search(I.get('dem') or ''): return self.root(I['args'][0], n + 1)
        if I['op'] == 'phi':
            s = {self.root(x, n + 8) for x, _ in I['in'] if x != v}
            return s.pop() if len(s) == 1 else None
        return None

    def place(self, v):
        o = 0
        while v[0] == 'v' and self.F.ins.get(v[1], {}).get('op') == 'getelementptr' and not self.F.ins[v[1]].get('var'): o += self.F.ins[v[1]]['off']; v = self.F.ins[v[1]]['base']
        return (v[1] if v[0] == 'v' else None, o)

    # -- tokens: ',' '\n' ('T', text) ('V', operand, instruction) ('C', operand, instruction)
    def tokens(self, I):
        d = I['dem']; a = I['args'][1] if len(I['args']) > 1 else None
        if re.search(r'__ostream_insert|ostream::write\(', d) or re.search(r'char const\*\)$', d):
            if a and a[0] == 'g' and a[1] in self.strings: return self.split(self.strings[a[1]])
            return [('V', a, I)]
        if re.search(r'[,(] ?char\)$', d):
            if a[0] == 'i': return self.split(chr(a[1] & 255))
            return [('C', a, I)]
        if a and (a[0] == 'fn' and 'endl' in a[1] or 'operator<<(std::ostream& (*)' in d or '(std::basic_ostream' in d and '(*)' in d):
            return ['\n'] if a[0] == 'fn' and 'endl' in a[1] else []
        return [('V', a, I)]

    def split(self, s):
        r = []; t = ''
        for c in s:
            if c in ',\n':
                if t: r.append(('T', t))
                t = ''; r.append(c)
            else: t += c
        if t: r.append(('T', t))
        return r

    # -- control flow -------------------------------------------------------
    def nsucc(self, b):
        I = self.F.blocks[b][-1]
        return [I['to']] if I['op'] == 'invoke' else list(self.F.succ[b])

    def of(self, b, root):
        r = []
        for I in self.F.blocks[b]:
            if I['id'] in self.toks and self.toks[I['id']][0] == root: r += self.toks[I['id']][1]
        return r

    def roots(self):
        return sorted({r for r, _ in self.toks.values()}, key=str)

    def ends(self, t):
        return t == '\n' or t[0] == 'C'

    def lines(self, root, trip=lambda h: None, cap=4000):
        """the lines a function may write: {tuple of tokens}; an inner loop that writes parts of a line
        is (('*', count or None), tokens…).  Raises Unk when a line cannot be delimited."""
        F = self.F; out = {}; seen = set()
        inner = {}
        for h, L in F.loops.items():
            t = [x for b in L['body'] for x in self.of(b, root)]
            inner[h] = None if any(self.ends(x) for x in t) else t
        todo = [(0, 0, ())]; n = 0
        def step(b, cur, via):
            """go to block b"""
            if b in F.loops and inner[b] is not None and via not in F.loops[b]['body']:
                L = F.loops[b]; it = self.once(b, root, inner)
                if it: cur = cur + (('*', trip(b), it),)
                for x, y in sorted(L['exits']):
                    if y in self.nsucc(x): step(y, cur, x)
                return
            todo.append((b, 0, cur))
        while todo:
            b, _, cur = todo.pop(); n += 1
            if n > cap: raise Unk('too many paths')
            k = (b, self.key(cur))
            if k in seen: continue
            seen.add(k)
            if len(cur) > 200: raise Unk('a line without end')
            for t in self.of(b, root):
                if t == '\n': out.setdefault(self.key(cur), cur); cur = ()
                elif t[0] == 'C': raise Unk('separator computed')
                else: cur = cur + (t,)
            su = self.nsucc(b)
            if not su and self.F.blocks[b][-1]['op'] == 'ret' and cur: out.setdefault(self.key(cur) + ('open',), cur + ('open',))
            for s in su: step(s, cur, b)
        return list(out.values())

    def key(self, cur):
        return tuple(('V', t[2]['id']) if t[0] == 'V' else (('*',) + self.key(t[2])) if t[0] == '*' else t for t in cur)

    def once(self, h, root, inner):
        """tokens of one iteration of a loop; the same on every path"""
        F = self.F; L = F.loops[h]; res = {}
        seen = set(); st = [(h, ())]; first = True
        while st:
            b, cur = st.pop()
            if (b, self.key(cur)) in seen: continue
            seen.add((b, self.key(cur)))
            if len(seen) > 2000: raise Unk('loop too large')
            cur = cur + tuple(self.of(b, root))
            for s in self.nsucc(b):
                if s == h: res.setdefault(self.key(cur), cur)
                elif s not in L['body']: continue
                elif s in F.loops and s != h and b not in F.loops[s]['body']:
                    it = self.once(s, root, inner)
                    if it: raise Unk(NESTED)
                    for x, y in F.loops[s]['exits']:
                        if y in L['body'] and y in self.nsucc(x): st.append((y, cur))
                else: st.append((s, cur))
        if len(res) > 1: raise Unk('a loop that writes different columns')
        return list(res.values())[0] if res else ()

    # -- where a value comes from -------------------------------------------
    def source(self, v, n=0):
        F = self.F
        if v is None or n > 20: return '?'
        if v[0] != 'v': return str(v[1]) if len(v) > 1 else '?'
        if v[1] in self.args: return 'arg%d' % self.args.index(v[1])
        I = F.ins.get(v[1])
        if I is None: return '?'
        if I['op'] in ('call', 'invoke'):
            return re.sub(r'^vcall:', '', I.get('dem') or '?')
        if I['op'] in ('sext', 'zext', 'trunc', 'fpext', 'fptrunc', 'freeze', 'uitofp', 'sitofp'): return self.source(I['ops'][0], n + 1)
        if I['op'] == 'alloca':
            # who fills it: the first call that gets it as its result
            for B in F.blocks:
                for J in B:
                    if J['op'] in ('call', 'invoke') and J['args'] and J['args'][0] == v and not re.search(r'::~|lifetime', J.get('dem') or ''): return re.sub(r'^vcall:', '', J.get('dem') or '?')
            return 'local'
        if I['op'] == 'getelementptr':
            s = self.source(I['base'], n + 1)
            return s + ('[i]' if I.get('var') else '') + ('[%d]' % I['off'] if I['off'] else '')
        if I['op'] == 'load':
            w, o = self.place(I['ops'][0])
            if w is not None and F.ins.get(w, {}).get('op') == 'alloca':
                s = [J['ops'][0] for B in F.blocks for J in B if J['op'] == 'store' and self.place(J['ops'][1]) == (w, o)]
                if len(s) == 1: return self.source(s[0], n + 1)
                return '%s@%d' % (self.source(['v', w], n + 1), o)
            p = I['ops'][0]
            return 'load(%s)' % self.source(p, n + 1)
        if I['op'] == 'phi': return 'phi'
        if I['op'] == 'extractvalue': return self.source(I['ops'][0], n + 1)
        return I['op']

    # -- loops ----------------------------------------------------------------
    def trip(self, h):
        """constant number of iterations of a counted loop, or None"""
        F = self.F; L = F.loops[h]
        ex = [(x, y) for x, y in L['exits'] if y in self.nsucc(x)]
        if len(ex) != 1 or len(L['latches']) != 1 or len(L['pre']) != 1: return None
        x = ex[0][0]; c = F.blocks[x][-1].get('cond')
        if not c or c[0] != 'v': return None
        C = F.ins[c[1]]
        if C['op'] != 'icmp': return None
        def pos(v):
            if v[0] == 'i': return ('#', v[1])
            w, o = self.place(v); return (w, o)
        for I in F.blocks[h]:
            if I['op'] != 'phi': continue
            ini = [v for v, p in I['in'] if p not in L['body']][0]; nxt = [v for v, p in I['in'] if p in L['body']][0]
            if nxt[0] != 'v': continue
            N = F.ins.get(nxt[1], {})
            if N.get('op') == 'getelementptr' and N['base'] == ['v', I['id']] and not N['var']: st = N['off']
            elif N.get('op') == 'add' and ['v', I['id']] in N['ops'] and [o for o in N['ops'] if o[0] == 'i']: st = [o for o in N['ops'] if o[0] == 'i'][0][1]
            else: continue
            for k, o in enumerate(C['ops']):
                if o not in (['v', I['id']], nxt): continue
                e, i0 = pos(C['ops'][1 - k]), pos(ini)
                if e[0] != i0[0] or not st: continue
                d, r = divmod(e[1] - i0[1], st)
                if r or d < 0: return None
                return d if o == ['v', I['id']] or d > 0 else 1
        return None

def expr(F, v, env, pred, n=0):
    """(value, is it the index itself (not reduced), moduli) of an integer expression"""
    if n > 40: return None
    if v[0] == 'i': return (v[1], False, frozenset())
    if v[0] != 'v': return None
    if v[1] in env: return env[v[1]]
    I = F.ins.get(v[1])
    if I is None: return None
    op = I['op']
    if op == 'phi':
        for x, p in I['in']:
            if pred.get(F.blk[I['id']]) == p: return expr(F, x, env, pred, n + 1)
        return None
    if op == 'select':
        c = expr(F, I['ops'][0], env, pred, n + 1)
        if c is None: return None
        r = expr(F, I['ops'][1] if c[0] else I['ops'][2], env, pred, n + 1)
        return None if r is None else (r[0], r[1] or c[1], r[2] | c[2])
    if op in ('zext', 'sext', 'trunc', 'freeze'): return expr(F, I['ops'][0], env, pred, n + 1)
    if op in ('add', 'sub', 'mul', 'urem', 'srem', 'udiv', 'and', 'or', 'xor', 'shl', 'icmp'):
        a = expr(F, I['ops'][0], env, pred, n + 1); b = expr(F, I['ops'][1], env, pred, n + 1)
        if a is None or b is None: return None
        raw = a[1] or b[1]; m = a[2] | b[2]; x, y = a[0], b[0]
        if op in ('urem', 'srem'):
            if y == 0 or b[1]: return None
            return (x % y, False, m | {y} if a[1] else m)
        if op == 'and' and not b[1] and (y & (y + 1)) == 0: return (x & y, False, m | {y + 1} if a[1] else m)
        if raw and op not in ('add', 'sub', 'icmp'): return None
        if raw and op == 'sub' and b[1]: return None
        if raw and op == 'add' and a[1] and b[1]: return None
        if op == 'icmp' and raw:
            if a[1] and b[1] or x < 0 or y < 0: return None
            raw = False; m = m | {('b', (y if a[1] else x) + 64)}   # from there on the comparison does not change
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'udiv': lambda: x // y if y else None, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
             'icmp': lambda: int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'slt': x < y, 'ule': x <= y, 'sle': x <= y, 'ugt': x > y, 'sgt': x > y, 'uge': x >= y, 'sge': x >= y}[I['pred']])}[op]()
        return None if f is None else (f, raw, m)
    return None
