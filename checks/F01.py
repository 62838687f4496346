"""F01: result files have one column per heading and one row per record."""
TECH = 'dataflow over the output streams: every line a function can write is enumerated as a sequence of values and separators over the control-flow graph (inner loops by their iteration count), and compared with the heading line of the same stream'
NOTE = ('Headings are read from the string literals of the code; a column is tied to its heading by where its value comes from. For time-series tables the separator is evaluated over one full period of the index, which covers every index because the index is used only through a remainder. '
        'The text of histograms, and numbers printed inside a column, are not looked into.')
from vf.core import *
from vf import stream
from vf.stream import Unk, expr

NEVER = [r'slide::(Cycler|Module\w*|Cell\w*(<\d+ul>)?|Battery|CoolSystem|CoolSystem_HVAC|CoolSystem_open|StorageUnit)::(?!(write|store)Data)\w+', r'slide::Procedure::(checkUp_prep|rebalance|checkUp|writeThroughput|checkMod|storeThroughput)\(', r'^(auto |void )?slide::visit_SUs',
         r'::(push_back|emplace_back|insert|clear|time|Ah|Wh)\(', r'basic_string<.*>::(~?basic_string|operator\+?=|append)', r'std::operator\+']
NEVER[0] = r'slide::(Cycler|Module|Module_s|Module_p|Cell|Cell_SPM|Cell_ECM<[0-9]+ul>|Battery|CoolSystem|CoolSystem_HVAC|CoolSystem_open|StorageUnit)::[A-Za-z_~]+(\[abi:cxx11\])?\('

# heading -> where the value has to come from
COL = {'ID': r'::getFullID', 'Full ID': r'::getFullID', 'Ah': r'^arg2$', 'CycleNumber': r'^arg3$', 'time [s]': r'::time\(', 'Current throughput [Ah]': r'::Ah\(', 'Energy throughput [Wh]': r'::Wh\(',
       'Capacity [Ah]': r'Cycler::testCapacity', 'States': r'viewStates', 'var_cap': r'getVariations', 'var_R': r'getVariations', 'var_degSEI': r'getVariations', 'var_degLAM': r'getVariations',
       'Number of cells': r'::getNcells|#getNcells', 'Total time': r'getTotalTime', 'Total evacuated heat': r'getHeatEvac', 'Total absorbed heat': r'getHeatabsorbed'}
FIELD = {'cells charge throughput': 'charge', 'Cells energy throughput': 'energy', 'total energy to operate the thermal management system': 'coolSystemLoad', 'losses in the converter': 'convloss'}

def show(n): return re.sub(r'\(.*', '', re.sub(r'std::__cxx11::basic_string<[^()]*>', 'string', n)).split(' ')[-1] if 'visit_SUs' not in n else 'checkMod (per unit)'

def shape(S, line):
    """[(source, open ended)] of the columns of a line; Unk when values and separators do not alternate"""
    cols = []; want = True
    def tok(t):
        nonlocal want
        if t == ',':
            if want: raise Bad('an empty column')
            want = True
        else:
            if not want: raise Bad('two values without a separator between them')
            cols.append((t[1] if t[0] == 'T' else S.source(t[1]), False, t)); want = False
    for t in line:
        if t == 'open': raise Bad('a record without an end of line')
        if t[0] == '*' and t != '*':
            n, it = t[1], t[2]
            if n is not None:
                for k in range(n):
                    for x in it: tok(x)
            else:
                for k in (1, 2):
                    try: shape(S, [y for x in line for y in ((('*', k, x[2]),) if x is t else (('*', 1, x[2]),) if x[0] == '*' and x[1] is None and x != ',' else (x,))])
                    except Bad: raise
                if list(it[:1]) != [','] or len(it) != 2 or want: raise Unk('a loop of columns that is not a separator and a value')
                cols.append((S.source(it[1][1]), True, it[1]))
        else: tok(t)
    if want: raise Bad('a separator at the end of the line')
    return cols

class Bad(Exception): pass

def headings(S, lines):
    return [l for l in lines if l and 'open' not in l and all(t == ',' or t[0] == 'T' for t in l) and ',' in l]

def compare(ctx, P, who, S, head, recs, loc):
    H = [t[1] for t in head if t != ',']
    for l in recs:
        f = next((t[2] if t[0] == 'V' else None for t in l if t[0] == 'V'), None); w = S.F.loc(f) if f else loc
        try: cols = shape(S, l)
        except Bad as e: ctx.violation(who + ' columns', '%s writes %s' % (who, e), w); continue
        except Unk as e: ctx.undecided(who + ' columns', str(e)); continue
        last = cols and cols[-1][1]
        if any(c[1] for c in cols[:-1]): ctx.violation(who + ' columns', '%s: columns follow a list of columns whose number is not fixed' % who, w); continue
        if len(cols) != len(H): ctx.violation(who + ' columns', '%s writes %d columns%s under %d headings' % (who, len(cols), ' (the last of them repeated)' if last else '', len(H)), w); continue
        ctx.ok(who + ' columns'); seen = set()
        for h, (src, opn, t) in zip(H, cols):
            key = '%s column %s' % (who, h)
            if h in FIELD:
                m = re.search(r'\[(\d+)\]\)$', src); off = int(m.group(1)) if m else 0 if re.match(r'load\(.*(phi|\[i\])\)$', src) else None
                L = [x for x in P.layout('slide::ProcedureThroughputData') if x[0] == off]
                if not L: ctx.undecided(key, 'value from ' + src[:80]); continue
                ctx.check(key, L[0][2] == FIELD[h], '%s: the column %r holds %s' % (who, h, L[0][2]), w)
            elif h in COL:
                if re.search(COL[h], src): ctx.ok(key)
                elif any(re.search(r, src) for k, r in COL.items() if k != h): ctx.violation(key, '%s: the column %r holds another quantity (%s)' % (who, h, src[-60:]), w)
                else: ctx.undecided(key, 'value from ' + src[:80])
            else: ctx.undecided(key, 'what belongs under this heading is not specified')

def tables(ctx):
    fs = [f for f in ctx.index().index if not f['decl'] and re.search(r'slide::Procedure::(writeThroughput|checkUp|checkMod)\(slide|slide::Procedure::writeThroughput\(|visit_SUs<.*Procedure::checkMod', f['dem'])]
    P = ctx.load([dict(name=f['name'], cls='', fn=f['name']) for f in fs], strings=True, never=NEVER)
    res = {}; heads = {}
    for f in fs:
        F = P.fn(f['name'])
        if F is None: continue
        S = stream.Str(F, P.strings)
        for r in S.roots():
            try: res[f['name'], r] = (F, S, S.lines(r, S.trip))
            except Unk as e:
                if str(e) == stream.NESTED and unended(S, r): ctx.violation('%s lines' % show(F.dem), '%s does not end the line after a record' % show(F.dem), F.loc(F.blocks[0][0]))
                else: ctx.undecided('%s lines' % show(F.dem), str(e))
    for want in ('writeThroughput', 'checkUp', 'checkMod'):
        mine = [(k, v) for k, v in res.items() if re.search(r'Procedure::%s\(' % want, v[0].dem) and headings(v[1], v[2])]
        if not mine:
            bad = None
            for k, v in res.items():
                for l in v[2]:
                    if 'Procedure::%s(' % want in v[0].dem and len([t for t in l if t != ',' and t[0] == 'T']) > 1 and [t for t in l if t != ',' and t[0] in 'V*']:
                        try: shape(v[1], l)
                        except Bad: bad = v
                        except Unk: pass
            if bad: ctx.violation(want, '%s does not end the line of headings' % want, bad[0].loc(bad[0].blocks[0][0]))
            else: ctx.undecided(want, 'no file with headings found')
            continue
        for (n, r), (F, S, lines) in mine:
            hs = {tuple(x for x in l): l for l in headings(S, lines)}
            loc = F.loc(F.blocks[0][0])
            if len(hs) > 1: ctx.undecided(want, 'more than one heading line'); continue
            head = list(hs.values())[0]
            recs = [l for l in lines if l and any(t != ',' and t[0] in 'V*' for t in l)]
            compare(ctx, P, want, S, head, recs, loc)
            got = bool(recs)
            # the records may be written by a function that gets the stream
            for (n2, r2), (F2, S2, l2) in res.items():
                if n2 == n or 'Procedure::%s(' % want not in F2.dem: continue
                if captured(F, S, F2, r2) != r: continue
                got = True; compare(ctx, P, want, S2, head, [l for l in l2 if l], loc)
            if not got: ctx.undecided(want + ' columns', 'no records found')

def unended(S, r):
    """a loop that writes values, and loops inside it, but never ends a line"""
    F = S.F
    for h, L in F.loops.items():
        if any(k != h and h in F.loops[k]['body'] for k in F.loops): continue
        t = [x for b in L['body'] for x in S.of(b, r)]
        if any(x != ',' and x[0] == 'V' for x in t) and not any(x == '\n' or x[0] == 'C' for x in t): return True
    return False

def captured(F, S, F2, r2):
    """the stream of F that a captured reference of F2 stands for"""
    if r2[0] != 'arg': return None
    for B in F.blocks:
        for I in B:
            if I['op'] in ('call', 'invoke') and I.get('callee') == F2.name and r2[1] < len(I['args']):
                cur = S.place(I['args'][r2[1]]); steps = list(r2[2:])
                while steps:
                    s = steps.pop(0)
                    if isinstance(s, tuple): cur = (cur[0], cur[1] + s[1]); continue
                    st = [J['ops'][0] for C in F.blocks for J in C if J['op'] == 'store' and S.place(J['ops'][1]) == (cur[0], cur[1] + s)]
                    if len(st) != 1: return None
                    cur = S.place(st[0])
                return ('a', cur[0]) if cur[1] == 0 else None
    return None

# -- time series -----------------------------------------------------------------
def width(ctx, F, who):
    """{vector: numbers stored per record}"""
    r = {}; S = stream.Str(F, {})
    def here(b):
        c = {}
        for I in F.blocks[b]:
            d = I.get('dem') or ''
            m = re.match(r'std::vector<double.*::(push_back|emplace_back|insert)\W', d)
            m = m or re.match(r'(?:\w[\w:<>,& ]* )?std::vector<double.*?>::(push_back|emplace_back|insert)[<(]', d)
            if not m or I['op'] not in ('call', 'invoke'): continue
            a = I['args']; k = 1 if I['args'] and F.ins.get(a[0][1] if a[0][0] == 'v' else None, {}).get('op') == 'alloca' and m.group(1) == 'insert' and len(a) > 3 and a[0] != a[1] and False else 0
            v = S.root(a[k]); n = 1
            if m.group(1) == 'insert':
                z = [x for x in a if x[0] == 'i']
                n = z[-1][1] if z and 'initializer_list' in d else None
            c.setdefault(v, []).append((n, I))
        return c
    seen = set(); todo = [(0, ())]
    while todo:
        b, cur = todo.pop()
        if (b, cur) in seen: continue
        seen.add((b, cur)); d = dict(cur)
        for v, L in here(b).items():
            for n, I in L: d[v] = None if n is None or d.get(v, 0) is None else d.get(v, 0) + n
        if max([x for x in d.values() if x] or [0]) > 200: return None
        cur = tuple(sorted(d.items(), key=str)); su = S.nsucc(b)
        if not su and F.blocks[b][-1]['op'] == 'ret':
            r.setdefault(cur, F.blocks[b][-1])
        todo += [(s, cur) for s in su]
        if len(seen) > 3000: return None
    return r

def series(ctx, who, Fw, strings, Fs):
    loc = Fw.loc(Fw.blocks[0][0]); W = width(ctx, Fs, who)
    vec = {v for cur in W or {} for v, n in cur if v is not None}
    if not W or len(vec) != 1 or None in vec or any(n is None for cur in W for v, n in cur): ctx.undecided(who + ' record', 'the numbers stored per record were not recognised'); return
    v = vec.pop(); ns = {dict(cur).get(v, 0) for cur in W}
    if len(ns - {0}) != 1: ctx.violation(who + ' record', '%s stores %s numbers depending on the case' % (who, ' or '.join(map(str, sorted(ns)))), Fs.loc(Fs.blocks[0][0])); return
    N = max(ns); ctx.ok(who + ' record')
    S = stream.Str(Fw, strings); key = who + ' lines'; did = 0
    for h, L in sorted(Fw.loops.items()):
        if any(h != k and k in L['body'] for k in Fw.loops): continue
        vals = [(I, t) for b in L['body'] for I in Fw.blocks[b] if I['id'] in S.toks for t in S.toks[I['id']][1] if t != ',' and t != '\n' and t[0] == 'V']
        mine = [(I, t) for I, t in vals if element(S, t[1], v, L)]
        if not mine: continue
        did += 1
        iv, base = element(S, mine[0][1][1], v, L)
        try: bad = period(S, h, L, iv, N, v)
        except Unk as e: ctx.undecided(key, str(e)); continue
        ctx.analysed['paths'] += N
        ctx.check(key, bad is None, '%s: %s' % (who, bad), Fw.loc(mine[0][0]))
    if not did: ctx.undecided(key, 'the loop that writes the records was not recognised')

def element(S, v, vec, L):
    """(index, base) when v is an entry of the vector that the loop's index selects"""
    F = S.F
    I = F.ins.get(v[1]) if v and v[0] == 'v' else None
    if not I or I['op'] != 'load': return None
    g = F.ins.get(I['ops'][0][1]) if I['ops'][0][0] == 'v' else None
    if g and g['op'] == 'getelementptr' and len(g['var']) == 1 and g['var'][0][1] == 8 and g['off'] == 0:
        i = g['var'][0][0]; J = F.ins.get(i[1]) if i[0] == 'v' else None
        if J and J['op'] == 'phi' and F.blk[J['id']] == L['header']:
            r = S.root(g['base'])
            base = r and (r[:-1] if r[-1] == 0 else r[:-1] + (('+', r[-1]),))
            if r and base == vec or r and tuple(r) == tuple(vec) + (0,): return (J, r)
    if g and g['op'] == 'phi' and F.blk[g['id']] == L['header']:
        if any(S.root(x) == tuple(vec) + (0,) for x, p in g['in'] if p not in L['body']): return (g, None)
    return None

def period(S, h, L, iv, N, vec):
    """None, or what is wrong with the separators of the table; every index is covered by one period"""
    F = S.F
    ini = [x for x, p in iv['in'] if p not in L['body']]; nxt = [x for x, p in iv['in'] if p in L['body']]
    if len(ini) != 1 or len(nxt) != 1: raise Unk('the loop over the records was not recognised')
    J = F.ins.get(nxt[0][1]) if nxt[0][0] == 'v' else None
    if iv['ty'] == 'ptr': raise Unk('records are walked by pointer')
    if ini[0][0] == 'i' and ini[0][1] > 0: return 'the first entries are not written'
    if ini[0] != ['i', 0]: raise Unk('the loop over the records does not start at the first entry')
    if not J or J['op'] != 'add' or sorted(map(str, J['ops'])) != sorted(map(str, [['v', iv['id']], ['i', 1]])): raise Unk('the loop over the records does not go one entry at a time')
    P = 1; k = 0; mods = {N}; bound = 0
    while k < max(P, N) + bound:
        seqs = set(); st = [(h, {}, (), 0)]
        while st:
            b, pred, cur, n = st.pop()
            if n > 400: raise Unk('loop too long')
            env = {iv['id']: (k, True, frozenset())}
            for x in F.blocks[h]:
                if x['op'] == 'phi' and x['id'] != iv['id']: pass
            for I in F.blocks[b]:
                if I['id'] not in S.toks: continue
                for t in S.toks[I['id']][1]:
                    if t in (',', '\n'): cur = cur + (t,)
                    elif t[0] == 'C':
                        e = expr(F, t[1], env, pred)
                        if e is None or e[1]: raise Unk('the separator was not evaluated')
                        mods |= e[2]; cur = cur + (chr(e[0] & 255),)
                    elif t[0] == 'V': cur = cur + (('V',) if t[1] and element(S, t[1], vec, L) else ('other',),)
                    else: cur = cur + (t,)
            T = F.blocks[b][-1]; su = S.nsucc(b)
            if T['op'] == 'br' and T.get('cond') and len(su) == 2 and b != h:
                e = expr(F, T['cond'], env, pred)
                if e is not None:
                    mods |= e[2]; su = [su[0] if e[0] & 1 else su[1]]
            for s in su:
                if s == h: seqs.add(cur)
                elif s in L['body']: st.append((s, {**pred, s: b}, cur, n + 1))
        P = 1
        for m in mods:
            if isinstance(m, tuple): bound = max(bound, m[1])
            else: P = P * m // gcd(P, m)
        if P + bound > 5000: raise Unk('period too long')
        want = (('V',), '\n' if (k + 1) % N == 0 else ',')
        for s in seqs:
            if s != want:
                got = ''.join(x if isinstance(x, str) else '<value>' for x in s).replace('\n', '<new line>')
                return 'entry %d of a table with %d numbers per record is written as %r' % (k, N, got)
        k += 1
    return None

def gcd(a, b):
    while b: a, b = b, a % b
    return a

# -- records kept as structures -----------------------------------------------------
def structs(ctx, who, F, strings, P, cls):
    S = stream.Str(F, strings); L = {o: n for o, z, n, t in P.layout(cls) if z == 8}
    loc = F.loc(F.blocks[0][0]); did = False
    if not L: ctx.undecided(who + ' columns', 'record type not found'); return
    for r in S.roots():
        try: lines = S.lines(r, S.trip)
        except Unk as e: ctx.undecided(who + ' columns', str(e)); did = True; continue
        for l in lines:
            if not l: continue
            did = True
            try: cols = shape(S, l)
            except Bad as e: ctx.violation(who + ' columns', '%s writes %s' % (who, e), loc); continue
            except Unk as e: ctx.undecided(who + ' columns', str(e)); continue
            offs = []
            for s, o, t in cols:
                m = re.search(r'\[(\d+)\]\)$', s); offs.append(int(m.group(1)) if m else 0 if re.match(r'load\(.*(phi|\[i\])\)$', s) else None)
            if None in offs: ctx.undecided(who + ' columns', 'a column was not recognised'); continue
            miss = [n for o, n in L.items() if o not in offs]
            ctx.check(who + ' columns', sorted(offs) == sorted(L), '%s: a record is written with %d columns%s, it has %d values' % (who, len(offs), ' (without %s)' % ', '.join(miss) if miss else '', len(L)), loc)
    if not did: ctx.undecided(who + ' columns', 'nothing written was recognised')

def collected(ctx):
    """what is stored under the headings of the throughput table"""
    f = ctx.find(r'slide::Procedure::storeThroughput\(')
    if not f: ctx.undecided('storeThroughput', 'not found'); return
    P = ctx.load([dict(name=f[0]['name'], cls='', fn=f[0]['name'])], strings=True, never=NEVER); F = P.fn(f[0]['name']); S = stream.Str(F, {})
    off = {n: o for o, z, n, t in P.layout('slide::ProcedureThroughputData')}
    for B in F.blocks:
        for I in B:
            if I['op'] not in ('call', 'invoke') or not re.search(r'ProcedureThroughputData.*::(push_back|emplace_back)', I.get('dem') or ''): continue
            if 'emplace_back' in I['dem'] and len(I['args']) > 2:
                src = {n: S.source(a) for n, a in zip(sorted(off, key=off.get), I['args'][1:])}
                for n, a in zip(sorted(off, key=off.get), I['args'][1:]):
                    w = S.place(a)[0]; s = [J['ops'][0] for C in F.blocks for J in C if J['op'] == 'store' and S.place(J['ops'][1]) == (w, 0)]
                    if len(s) == 1: src[n] = S.source(s[0])
            else:
                w, o = S.place(I['args'][1]); src = {}
                for n in off:
                    s = [J['ops'][0] for C in F.blocks for J in C if J['op'] == 'store' and S.place(J['ops'][1]) == (w, o + off[n])]
                    if len(s) == 1: src[n] = S.source(s[0])
            for n, want in (('charge', 'Ah'), ('energy', 'Wh')):
                s = src.get(n); key = 'storeThroughput ' + n
                if s and re.search(r'::%s\(' % want, s): ctx.ok(key)
                elif s and re.search(r'::(Ah|Wh|time)\(', s): ctx.violation(key, 'storeThroughput stores another quantity as %s' % n, F.loc(I))
                else: ctx.undecided(key, 'value from %s' % (s or '?')[:80])
            return
    ctx.undecided('storeThroughput', 'no record stored')

def run(ctx):
    ctx.rule = ('in the check-up, module check-up and throughput files every line that can be written has exactly one value per heading, values and separators alternate, and the value under each heading comes from the quantity the heading names; '
                'the tables of cells and modules end the line after exactly the numbers that storeData adds per record, for every entry; records kept as structures are written with every field once')
    ctx.assume = ['the formatted text of a value contains no separator', 'getVariations returns the variations in the order of the headings']
    tables(ctx); collected(ctx)
    def pair(cls, re_w, re_s, conf):
        out = []
        for x in (re_w, re_s):
            c = ctx.find(x)
            if not c: return None
            out.append(c[0]['name'])
        P = ctx.load([dict(name=n, cls='', fn=n) for n in out], strings=True, never=[x for x in NEVER[1:]] + [r'slide::(StorageUnit|Cell|Cell_SPM|Module)::(getFullID|viewStates|V|I|T|SOC|getThroughputs|getNcells)', ], conf=conf)
        return P, P.fn(out[0]), P.fn(out[1])
    for who, w, s, conf in (('cell table', r'^slide::Cell::writeData\(', r'^slide::Cell::storeData\(', ()),
                            ('module table', r'^slide::Module::writeData\(', r'^slide::Module::storeData\(', (('DATASTORE_MODULE', 'moduleDataStorageLevel::storeTimeData'),))):
        r = pair(who, w, s, conf)
        if not r or not r[1] or not r[2]: ctx.undecided(who + ' lines', 'writeData or storeData not found'); continue
        series(ctx, who, r[1], r[0].strings, r[2])
    C = (('DATASTORE_COOL', '2'),)
    for who, rx, cls in (('cooling table', r'^slide::CoolSystemData::writeData\(.*CoolSystemInst', 'slide::CoolSystemInst'), ('HVAC table', r'^slide::CoolSystem_HVACData::writeData\(.*CoolSystem_HVACInst', 'slide::CoolSystem_HVACInst')):
        c = ctx.find(rx)
        if not c: ctx.undecided(who + ' columns', 'writer not found'); continue
        P = ctx.load([dict(name=c[0]['name'], cls='', fn=c[0]['name'])], strings=True, never=NEVER[1:], conf=C)
        F = P.fn(c[0]['name'])
        if F is None: ctx.undecided(who + ' columns', 'writer not found'); continue
        structs(ctx, who, F, P.strings, P, cls)
