"""F02: collected data is written once, into the results folder."""
TECH = 'typestate over the control-flow graph of the writers (file opened where and how, open tested, records written in order, records dropped) with dominance and reachability, after inlining of the helpers'
NOTE = ('Decided for the tables of cells, modules, cooling systems and the throughput table of the procedures, in the configurations that keep them. Whether the operating system writes what a stream was given is outside the program. '
        'Usage histograms are kept and rewritten by design; the statement is about tables of records.')
from vf.core import *
from vf import stream

NEVER = [r'slide::(StorageUnit|Cell|Cell_SPM|Module|Battery|CoolSystem|CoolSystem_HVAC|Cycler)::[A-Za-z_~]+(\[abi:cxx11\])?\(', r'slide::Procedure::(checkUp_prep|rebalance|checkUp|writeThroughput|checkMod|storeThroughput|balanceCheckup)\(', r'^(auto |void )?slide::visit_SUs',
         r'vector<.*::(push_back|emplace_back|insert|clear|erase|resize|swap|assign|pop_back|shrink_to_fit|operator=)\(', r'basic_string<.*>::(~?basic_string|operator\+?=|append)', r'std::operator\+']
FILE = re.compile(r'basic_ofstream<.*>::(basic_ofstream|open)\b|\bofstream::(open|basic_ofstream)')
TEST = re.compile(r'::is_open\(|basic_ios<.*>::(operator bool|operator!|good|fail)\(')
DROP = re.compile(r'(?:^|\s)(?:\w[\w:<>,&* ]* )?std::vector<.*>::(clear|erase|resize|swap|assign|pop_back|operator=)\(')
MEM = {'clear'}

def beg(v): return v[:-1] + (v[-1][1],) if isinstance(v[-1], tuple) else v + (0,)
def end(v): return v[:-1] + (v[-1][1] + 8,) if isinstance(v[-1], tuple) else v + (8,)

class W:
    """one writer: a function, its stream operations and the table it writes"""
    def __init__(self, ctx, who, F, strings):
        self.ctx = ctx; self.who = who; self.F = F; self.S = stream.Str(F, strings)
        self.opens = []; self.tests = []; self.drops = []
        for b in F.rpo:
            for I in F.blocks[b]:
                if I['op'] not in ('call', 'invoke'): continue
                d = I.get('dem') or ''
                if FILE.search(d) and len(I['args']) > 1: self.opens.append(I)
                elif TEST.search(d): self.tests.append(I)
                elif DROP.search(d) and not re.search(r'basic_string<[^<>]*(<[^<>]*>[^<>]*)*>::\w+\($', d): self.drops.append((DROP.search(d).group(1), I))

    def loc(self, I=None): return self.F.loc(I or self.F.blocks[0][0])

    def reach(self, start, cut=()):
        """blocks reached on paths without exceptions, not using the edges in cut"""
        seen = set(start); st = list(start)
        while st:
            b = st.pop()
            for s in self.S.nsucc(b):
                if (b, s) in cut or s in seen: continue
                seen.add(s); st.append(s)
        return seen

    # -- where ------------------------------------------------------------
    def under(self, v, seen=()):
        """True when a path is made from the results folder, False when it is not, None when unknown"""
        F = self.F
        if v[0] == 'g': return 'PathVar' in v[1] and 'results' in v[1]
        if v[0] != 'v' or v[1] in seen: return None
        I = F.ins.get(v[1])
        if I is None: return None
        if I['op'] == 'alloca':
            src = []
            for B in F.blocks:
                for J in B:
                    if J['op'] not in ('call', 'invoke') or not J['args'] or J['args'][0] != v: continue
                    d = J.get('dem') or ''
                    if re.search(r'::~|lifetime|operator<<', d): continue
                    src.append(J)
            r = set()
            for J in src:
                d = J['dem']
                if re.search(r'filesystem::.*operator/\(', d) and len(J['args']) > 2: r.add(self.under(J['args'][1], seen + (v[1],)))
                elif re.search(r'path::(operator/=|operator\+=|append|concat)', d): continue
                elif re.search(r'operator\+|basic_string\(|::path[(<]|path::path|::string\(|operator=\(', d):
                    q = [self.under(a, seen + (v[1],)) for a in J['args'][1:] if a[0] in ('v', 'g')]
                    r.add(True if q and q[0] else None if any(x is None or x for x in q) and True in q else False if not any(q) else None)
                elif re.search(r'getFullID|to_string', d): r.add(False)
                else: r.add(None)
            if not r: return None
            return True if r == {True} else False if r == {False} else None
        if I['op'] in ('call', 'invoke'):
            q = [self.under(a, seen + (v[1],)) for a in I['args'] if a[0] in ('v', 'g')]
            return True if q and q[0] else None
        if I['op'] == 'phi':
            r = {self.under(x, seen + (v[1],)) for x, p in I['in']}
            return r.pop() if len(r) == 1 else None
        if I['op'] == 'load': return None
        return False

    def first_time(self, b):
        """block b is only reached when an argument of the function is zero (a first call)"""
        F = self.F; args = [a['id'] for a in F.args]
        for p in F.rpo:
            T = F.blocks[p][-1]
            if T['op'] != 'br' or not T.get('cond') or T['cond'][0] != 'v': continue
            C = F.ins.get(T['cond'][1])
            if not C or C['op'] not in ('icmp', 'fcmp') or len(self.S.nsucc(p)) != 2: continue
            if not any(o[0] == 'v' and o[1] in args for o in C['ops']) or not any(o[0] in 'if' and float(o[1]) == 0 for o in C['ops']): continue
            eq = C['pred'] in ('eq', 'oeq', 'ueq'); ne = C['pred'] in ('ne', 'une', 'one')
            if not (eq or ne): continue
            e = (p, T['succ'][0 if eq else 1])
            if b not in self.reach([0], {e}): return True
        return False

    def files(self, first_ok):
        ctx = self.ctx
        if not self.opens: ctx.undecided(self.who + ' file', 'no file is opened'); return False
        for I in self.opens:
            p, m = I['args'][1], (I['args'][2] if len(I['args']) > 2 else None)
            u = self.under(p)
            if u is None: ctx.undecided(self.who + ' folder', 'the path was not recognised')
            else: ctx.check(self.who + ' folder', u, '%s opens a file outside the results folder' % self.who, self.loc(I))
            if first_ok is None: continue
            if m is None or m[0] != 'i': ctx.undecided(self.who + ' appends', 'the mode was not recognised'); continue
            app = bool(m[1] & 1) and not m[1] & 32
            ctx.check(self.who + ' appends', app or first_ok and self.first_time(self.F.blk[I['id']]),
                      '%s overwrites what was written before' % self.who, self.loc(I))
        return True

    # -- the table ----------------------------------------------------------
    def is_load(self, v, path):
        I = self.F.ins.get(v[1]) if v[0] == 'v' else None
        return bool(I and I['op'] == 'load' and self.S.root(v) == path)

    def is_size(self, v, vec):
        F = self.F
        for n in range(8):
            if v[0] != 'v' or v[1] not in F.ins: return False
            I = F.ins[v[1]]
            if I['op'] in ('ashr', 'lshr', 'sdiv', 'udiv', 'trunc', 'zext', 'sext', 'freeze', 'mul'): v = I['ops'][0]; continue
            if I['op'] == 'sub':
                a, b = [F.ins.get(o[1]) if o[0] == 'v' else None for o in I['ops']]
                return bool(a and b and a['op'] == b['op'] == 'ptrtoint' and self.is_load(a['ops'][0], end(vec)) and self.is_load(b['ops'][0], beg(vec)))
            return False
        return False

    def when_empty(self, vec):
        """the edges that are only taken when the table has no records"""
        F = self.F; r = set()
        for b in F.rpo:
            T = F.blocks[b][-1]
            if T['op'] != 'br' or not T.get('cond') or T['cond'][0] != 'v' or len(T['succ']) != 2: continue
            C = F.ins.get(T['cond'][1]); flip = False
            while C and C['op'] == 'xor': flip = not flip; C = F.ins.get(C['ops'][0][1]) if C['ops'][0][0] == 'v' else None
            if not C or C['op'] != 'icmp': continue
            a, c = C['ops']; pr = C['pred']
            if not (self.is_load(a, beg(vec)) and self.is_load(c, end(vec)) or self.is_load(c, beg(vec)) and self.is_load(a, end(vec))
                    or self.is_size(a, vec) and c == ['i', 0] or a == ['i', 0] and self.is_size(c, vec)): continue
            if pr in ('eq', 'ne'): r.add((b, T['succ'][int((pr == 'eq') == flip)]))
            elif self.is_size(a, vec) and pr in ('ugt', 'sgt'): r.add((b, T['succ'][int(not flip)]))
        return r

    def walk(self, L, vec):
        """'ok' when the loop goes over every entry in order, a text when it does not, None when unknown;
        second: the test whether a value is read from the entry at hand"""
        F = self.F; S = self.S
        ex = [(x, y) for x, y in L['exits'] if y in S.nsucc(x)]
        live = [(x, y) for x, y in ex if not self.dead(y)]
        for I in F.blocks[L['header']]:
            if I['op'] != 'phi': continue
            ini = [v for v, p in I['in'] if p not in L['body']]; nxt = [v for v, p in I['in'] if p in L['body']]
            if len(ini) != 1 or len({str(x) for x in nxt}) != 1: continue
            N = F.ins.get(nxt[0][1]) if nxt[0][0] == 'v' else None
            if not N: continue
            me = ['v', I['id']]
            ptr = self.is_load(ini[0], beg(vec)) or I['ty'] == 'ptr' and self.is_load(ini[0], end(vec)) or I['ty'] == 'ptr' and S.place(ini[0])[0] is not None and self.is_load(['v', S.place(ini[0])[0]], beg(vec))
            idx = I['ty'].startswith('i') and any(g['op'] == 'getelementptr' and any(x[0] == me for x in g['var']) and self.is_load(g['base'], beg(vec)) for b in L['body'] for g in F.blocks[b])
            if not (ptr or idx): continue
            entry = lambda v: self.reads(v, I, vec)
            if ptr and not self.is_load(ini[0], beg(vec)): return 'does not begin with the first record', entry
            if idx and ini[0][0] == 'i' and ini[0][1] != 0: return 'does not begin with the first record', entry
            if idx and ini[0] != ['i', 0]:
                return None, entry
            if ptr and not (N['op'] == 'getelementptr' and N['base'] == me and not N['var'] and N['off'] > 0): return None, entry
            if idx:
                if N['op'] != 'add' or ['i', 1] not in N['ops'] or me not in N['ops']:
                    return ('leaves out records' if N['op'] == 'add' and me in N['ops'] and any(o[0] == 'i' and o[1] > 1 for o in N['ops']) else None), entry
            if len(live) != 1: return 'can end before the last record', entry
            x = live[0][0]; T = F.blocks[x][-1]; C = F.ins.get(T['cond'][1]) if T.get('cond') and T['cond'][0] == 'v' else None
            if x != L['header'] and x not in L['latches']: return 'can end before the last record', entry
            if not C or C['op'] != 'icmp': return None, entry
            cur = me if x == L['header'] else nxt[0]
            if cur not in C['ops'] and me not in C['ops']:
                for n, o in enumerate(C['ops']):
                    J = F.ins.get(o[1]) if o[0] == 'v' else None
                    if idx and x == L['header'] and J and J['op'] == 'add' and me in J['ops'] and any(k[0] == 'i' and k[1] > 0 for k in J['ops']) and self.is_size(C['ops'][1 - n], vec) and C['pred'] in ('ult', 'uge', 'ugt', 'ule', 'slt', 'sge', 'sgt', 'sle', 'eq', 'ne') and C['pred'] not in (('ule', 'sle') if n == 0 else ('uge', 'sge')) and C['pred'] not in (('ugt', 'sgt') if n == 0 else ('ult', 'slt')):
                        return 'leaves out the last record', entry
                return None, entry
            o = C['ops'][1 - C['ops'].index(cur)] if cur in C['ops'] else None
            if o is None: return None, entry
            if ptr: return ('ok' if self.is_load(o, end(vec)) and C['pred'] in ('eq', 'ne', 'ult', 'uge', 'ugt', 'ule') else None), entry
            if self.is_size(o, vec): return ('ok' if C['pred'] in ('ult', 'uge', 'ne', 'eq', 'slt', 'sge', 'ugt', 'sgt') else None), entry
            J = F.ins.get(o[1]) if o[0] == 'v' else None
            if J and J['op'] in ('add', 'sub') and any(self.is_size(k, vec) for k in J['ops']): return 'leaves out the last record', entry
            return None, entry
        return None, None

    def dead(self, b):
        """every path from here ends without returning"""
        return not any(self.F.blocks[x][-1]['op'] == 'ret' for x in self.reach([b]))

    def reads(self, v, iv, vec):
        F = self.F
        if not v or v[0] != 'v' or v[1] not in F.ins: return False
        I = F.ins[v[1]]
        if I['op'] != 'load': return False
        p = I['ops'][0]
        for n in range(6):
            if p == ['v', iv['id']]: return True
            g = F.ins.get(p[1]) if p[0] == 'v' else None
            if not g or g['op'] != 'getelementptr': return False
            if any(x[0] == ['v', iv['id']] for x in g['var']): return self.is_load(g['base'], beg(vec))
            p = g['base']
        return False

    def table(self, vec):
        ctx = self.ctx; F = self.F; S = self.S; who = self.who; loops = []
        for h, L in F.loops.items():
            w, entry = self.walk(L, vec)
            if entry is None: continue
            vals = [I for b in L['body'] for I in F.blocks[b] if I['id'] in S.toks for t in S.toks[I['id']][1] if t != ',' and t != '\n' and t[0] == 'V' and entry(t[1])]
            if vals: loops.append((h, L, w, vals[0]))
        if not loops: ctx.undecided(who + ' order', 'the loop that writes the records was not recognised'); return
        if len(loops) > 1:
            ctx.undecided(who + ' order', 'records are written in more than one place'); return
        h, L, w, I = loops[0]
        if w is None: ctx.undecided(who + ' order', 'the loop that writes the records was not recognised')
        else: ctx.check(who + ' order', w == 'ok', '%s: the writing of the records %s' % (who, w), self.loc(I))
        # every iteration writes
        b = F.blk[I['id']]
        body = self.reach([s for s in S.nsucc(h) if s in L['body']] if b != h else [h], {(x, h) for x in L['latches']})
        skip = b != h and self.skips(h, L, b)
        ctx.check(who + ' every record', not skip, '%s: some records are not written' % who, self.loc(I))
        # dropped only after they were written, and always then
        mine = [(k, J) for k, J in self.drops if S.root(J['args'][0]) == vec or len(J['args']) > 1 and k == 'swap' and S.root(J['args'][1]) == vec]
        unk = [J for k, J in self.drops if S.root(J['args'][0]) is None]
        exits = [y for x, y in L['exits'] if y in S.nsucc(x) and not self.dead(y)]
        nil = self.when_empty(vec); early = self.reach([0], {(x, y) for x, y in L['exits']} | nil)
        for k, J in mine:
            ctx.check(who + ' kept until written', F.blk[J['id']] not in early, '%s drops the records before they are written' % who, self.loc(J))
        clears = {F.blk[J['id']] for k, J in mine if k in ('clear', 'swap', 'assign', 'operator=') or k == 'erase' or k == 'resize' and J['args'][1] == ['i', 0]}
        # paths from the end of the loop to the return that do not pass a clear
        seen = set(exits) - clears; st = list(seen); out = None
        while st:
            x = st.pop()
            if F.blocks[x][-1]['op'] == 'ret': out = F.blocks[x][-1]
            for s in S.nsucc(x):
                if s not in seen and s not in clears and (x, s) not in nil: seen.add(s); st.append(s)
        if out is not None and unk: ctx.undecided(who + ' once', 'which table is emptied was not recognised')
        else: ctx.check(who + ' once', out is None, '%s keeps the records after writing them, so that they are written again' % who, self.loc(I))
        # the file was tested
        good = set(); polar = True
        for J in self.tests:
            d = J['dem']; pos = not re.search(r'operator!|::fail\(', d)
            if any(S.root(o['args'][0]) != S.root(J['args'][0]) for o in self.opens): continue
            es = self.edges(['v', J['id']], pos)
            if es is None: polar = False
            else: good |= es
        key = who + ' tested'
        if not self.tests: ctx.violation(key, '%s writes to and drops the records without a test whether the file is open' % who, self.loc(I)); return
        if not good or not polar: ctx.undecided(key, 'the test whether the file is open was not recognised'); return
        r = self.reach([0], good | nil)
        ctx.check(key, h not in r and not any(F.blk[J['id']] in r for k, J in mine), '%s drops the records although the file could not be opened' % who, self.loc(I))
        late = self.reach([y for x, y in good])
        ctx.check(who + ' tested after opening', not any(F.blk[o['id']] in late for o in self.opens), '%s opens the file after the test' % who, self.loc(I))

    def skips(self, h, L, b):
        seen = {h}; st = [h]
        while st:
            x = st.pop()
            for s in self.S.nsucc(x):
                if s == h: return True
                if s in L['body'] and s != b and s not in seen: seen.add(s); st.append(s)
        return False

    def edges(self, v, pos):
        """the edges taken when the tested value says that the file is open"""
        F = self.F; r = set(); used = False
        for b in F.rpo:
            for I in F.blocks[b]:
                if I['op'] == 'br' and I.get('cond') == v: r.add((b, I['succ'][0 if pos else 1])); used = True
                elif I['op'] == 'xor' and v in I['ops']:
                    e = self.edges(['v', I['id']], not pos)
                    if e is None: return None
                    r |= e; used = True
                elif I['op'] == 'icmp' and v in I['ops'] and any(o == ['i', 0] for o in I['ops']):
                    e = self.edges(['v', I['id']], pos if I['pred'] == 'ne' else not pos)
                    if e is None: return None
                    r |= e; used = True
        return r if used else None

def stored(ctx, who, F, vec):
    """records are added at the end, and nothing is taken away while collecting"""
    S = stream.Str(F, {}); n = 0; loc = F.loc(F.blocks[0][0])
    for B in F.blocks:
        for I in B:
            if I['op'] not in ('call', 'invoke'): continue
            d = I.get('dem') or ''; m = re.search(r'std::vector<.*>::(push_back|emplace_back|insert|clear|erase|resize|swap|assign|pop_back)\W', d)
            if not m or not I['args']: continue
            if m.group(1) in ('push_back', 'emplace_back'):
                if S.root(I['args'][0]) == vec: n += 1
            elif m.group(1) == 'insert' and S.root(I['args'][0]) == vec:
                n += 1; p = I['args'][1]
                J = F.ins.get(p[1]) if p[0] == 'v' else None
                if J and J['op'] == 'load' and S.root(p) == end(vec): continue
                if J and J['op'] == 'load' and S.root(p) == beg(vec): ctx.violation(who + ' collected in order', '%s: new records are put before the earlier ones' % who, F.loc(I)); return
                ctx.undecided(who + ' collected in order', 'the place of new records was not recognised'); return
            elif S.root(I['args'][0]) == vec:
                ctx.violation(who + ' collected in order', '%s takes records away while collecting' % who, F.loc(I)); return
    if n: ctx.ok(who + ' collected in order')
    else: ctx.undecided(who + ' collected in order', 'nothing collected was recognised')
    return

def passes_on(ctx, who, F, meth, P, one):
    """the call reaches every member"""
    w = W(ctx, who, F, {}); S = w.S; key = who + ' reaches its members'
    calls = [I for B in F.blocks for I in B if I['op'] in ('call', 'invoke') and re.search(r'#%s\(|::%s\(' % (meth, meth), I.get('dem') or '') and 'CoolSystem' not in (I.get('dem') or '')]
    if not calls: ctx.violation(key, '%s does not pass the request on to its members' % who, F.loc(F.blocks[0][0])); return
    if one:
        bs = {F.blk[I['id']] for I in calls}; seen = {0} - bs; st = list(seen); out = False
        while st:
            x = st.pop(); out |= F.blocks[x][-1]['op'] == 'ret'
            for s in S.nsucc(x):
                if s not in seen and s not in bs: seen.add(s); st.append(s)
        ctx.check(key, not out, '%s does not pass the request on to its members' % who, F.loc(calls[0])); return
    vec = ('arg', 0, ('+', 56))
    for h, L in F.loops.items():
        c = [I for I in calls if F.blk[I['id']] in L['body']]
        if not c: continue
        r, entry = w.walk(L, vec)
        if entry is None or r is None or not entry(c[0]['args'][0]): ctx.undecided(key, 'the loop over the members was not recognised'); return
        if r == 'ok' and F.blk[c[0]['id']] != h and w.skips(h, L, F.blk[c[0]['id']]): r = 'leaves out some'
        if r == 'ok' and any(F.blocks[x][-1]['op'] == 'ret' for x in w.reach([0], {(p, h) for p in F.pred[h]})): r = 'can be left out'
        ctx.check(key, r == 'ok', '%s: passing the request on to the members %s' % (who, r.replace('records', 'members').replace('record', 'member')), F.loc(c[0])); return
    ctx.undecided(key, 'the loop over the members was not recognised')

def run(ctx):
    ctx.rule = ('every file with results is opened under the results folder, in append mode or under a test that this is the first time; records are added at the end, written from the first to the last, each, only after the file was found open, '
                'and dropped after - never before - the loop that writes them, on every path to the return; packs and batteries pass the request on to every member')
    ctx.assume = ['a file that was opened takes what is written to it']
    def get(rx, conf=()):
        c = ctx.find(rx)
        if not c: return None, None
        P = ctx.load([dict(name=c[0]['name'], cls='', fn=c[0]['name'])], strings=True, never=[x for x in NEVER], conf=conf)
        return P, P.fn(c[0]['name'])
    MODC = (('DATASTORE_MODULE', 'moduleDataStorageLevel::storeTimeData'),); COOL = (('DATASTORE_COOL', '2'),)
    for who, wr, sr, conf in (('cell table', r'^slide::Cell::writeData\(', r'^slide::Cell::storeData\(', ()), ('module table', r'^slide::Module::writeData\(', r'^slide::Module::storeData\(', MODC),
                              ('cooling table', r'^slide::CoolSystemData::writeData\(.*CoolSystemInst', r'^slide::CoolSystemData::storeData\(.*CoolSystemInst', COOL),
                              ('HVAC table', r'^slide::CoolSystem_HVACData::writeData\(.*CoolSystem_HVACInst', r'^slide::CoolSystem_HVACData::storeData\(.*CoolSystem_HVACInst', COOL),
                              ('throughput table', r'^slide::Procedure::writeThroughput\(', r'^slide::Procedure::storeThroughput\(', ())):
        P, F = get(wr, conf); Q, G = get(sr, conf)
        if F is None or G is None: ctx.undecided(who, 'writer or collector not found'); continue
        S = stream.Str(G, {}); vs = set()
        for B in G.blocks:
            for I in B:
                if I['op'] in ('call', 'invoke') and re.search(r'std::vector<.*>::(push_back|emplace_back|insert)\W', I.get('dem') or '') and I['args']: vs.add(S.root(I['args'][0]))
        vs.discard(None)
        vs = {v for v in vs if v[0] == 'arg'}
        if len(vs) != 1: ctx.undecided(who, 'the collected table was not recognised'); continue
        vec = vs.pop(); stored(ctx, who, G, vec)
        if who in ('cooling table', 'HVAC table'):   # the table is the last parameter of both
            vec = ('arg', len(F.args) - 1)
        w = W(ctx, who, F, P.strings)
        ctx.analysed['call_sites'] += len(w.opens) + len(w.tests) + len(w.drops)
        w.files(who == 'throughput table'); w.table(vec)
    for who, rx, first in (('check-up file', r'^slide::Procedure::checkUp\(', True), ('module check-up file', r'^slide::Procedure::checkMod\(', None), ('state file', r'^slide::Procedure::balanceCheckup\(', None)):
        P, F = get(rx)
        if F is None: ctx.undecided(who, 'not found'); continue
        w = W(ctx, who, F, P.strings); w.files(first)
    for who, rx, meth, one, conf in (('Module::writeData', r'^slide::Module::writeData\(', 'writeData', False, ()), ('Module::storeData', r'^slide::Module::storeData\(', 'storeData', False, ()),
                               ('Battery::writeData', r'^slide::Battery::writeData\(', 'writeData', True, ()), ('Battery::storeData', r'^slide::Battery::storeData\(', 'storeData', True, ()),
                               ('Cycler::writeData', r'^slide::Cycler::writeData\(', 'writeData', True, ()), ('Cycler::storeData', r'^slide::Cycler::storeData\(', 'storeData', True, ())):
        P, F = get(rx, conf)
        if F is None: ctx.undecided(who, 'not found'); continue
        passes_on(ctx, who, F, meth, P, one)
