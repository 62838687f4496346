"""F05: a data file that cannot be read is an error."""
TECH = 'typestate analysis of input streams plus symbolic bounds of stored entries'
NOTE = 'Every reader instantiation: no read before a successful check, no normal return without one, each stored entry inside its array.'
from vf.core import *
from vf.interp import Hooks
from vf.bounds import Bounds
from vf import build as B

CHK = re.compile(r'::(good|is_open|operator bool|operator!|fail|bad|eof)\(')
READ = re.compile(r'operator>>|std::getline|::(peek|get|read|getline|ignore|readsome|putback|unget|rdbuf|seekg)\(')

class H(Hooks):
    K = 64
    def __init__(self): self.bad = {}; self.streams = set()
    def get(self, st, b): return dict(st.ps).get(b)
    def put(self, st, b, v): d = dict(st.ps); d[b] = v; st.ps = tuple(sorted(d.items()))
    def joinps(self, a, b): return a
    def may_throw(self, ai, st, I, callee): return 'loadCSV' in callee
    def call(self, ai, st, I, callee, args):
        if not args or args[0][0] != 'ptr': return None
        b = args[0][1]
        nm = callee.split('(')[0]
        if re.search(r'>::basic_ifstream(<|$)', nm):
            self.streams.add(b)
            self.put(st, b, 'U' if len(args) > 1 else 'N'); return None
        if re.search(r'basic_ifstream<.*>::open(<|$)', nm): self.put(st, b, 'U'); return None
        s = self.get(st, b)
        if s is None:
            m = re.search(r'std::map<.*::operator\[\]', callee)
            if m: return [(st, ptr(('map', m.group(0)[:40])), 'ret')]
            return None
        m = CHK.search(callee)
        if m:
            if s in 'UF':
                good = m.group(1) in ('good', 'is_open', 'operator bool'); out = []
                if m.group(1) == 'eof': return None
                for v in (True, False):
                    x = st.clone(); ok = v == good
                    if s == 'F' and ok: continue
                    self.put(x, b, 'C' if ok and m.group(1) != 'bad' else 'F' if not ok else s); out.append((x, TRUE if v else FALSE, 'ret'))
                return out
            return None
        if READ.search(callee) or 'ignoreBOM' in callee:
            if s != 'C': self.bad[I['id']] = (I, {'U': 'without having checked that it is open', 'F': 'although opening it failed', 'N': 'before it was opened'}[s])
        return None

def run(ctx):
    ctx.rule = ('typestate of every input stream (opened, checked, failed) along all paths of every reader: no read unless a check succeeded, no normal return after a failed or missing check; '
                'every entry read into a fixed array is proved to lie inside it, and a view that is handed out is proved to be no longer than its table')
    ctx.assume = ['std::ifstream reports an unopened file through good / is_open / fail', 'looking up the same key twice gives the same table']
    fs = [f for f in ctx.find(r'slide::(loadCSV_\w+|getFile\w*)\b', decl=False)]
    if not fs: ctx.undecided('readers', 'not found'); return
    roots = [dict(name=shorten(f['dem']), cls='', fn=f['name']) for f in fs]
    P = ctx.load(roots, force=['slide::'])
    for r in roots:
        F = P.fn(r['name'])
        if F is None: ctx.undecided(r['name'], 'not found'); continue
        reader(ctx, P, F, r['name'])
    import glob, os
    for f in B.src_files():
        if f.endswith(('.hpp', '.cpp', '.h')) and 'read_CSVfiles' not in f and re.search(r'\bi?fstream\s+\w+\s*[({]', open(f, errors='ignore').read()) and re.search(r'\bifstream\s+\w+', open(f, errors='ignore').read()):
            ctx.undecided('reader in ' + os.path.basename(f), 'a stream is read outside the reader functions')

def shorten(d):
    m = re.search(r'slide::(\w+)(.*)', d); args = m.group(2)
    args = args.replace('std::filesystem::__cxx11::path', 'path').replace('std::allocator<double>', '').replace('18446744073709551615ul', '')
    return m.group(1) + re.sub(r'\(.*', '', args)[:70]

def reader(ctx, P, F, name):
    h = H(); a = ctx.ai(F, P, h, None, loops=True)
    if not h.streams and not any('loadCSV' in (I.get('dem') or '') for I in F.calls()):
        if all(e['kind'] != 'ret' for e in a.exits): ctx.ok(name + ' never returns'); return
        ctx.undecided(name, 'no stream found'); return
    for I, why in h.bad.values(): ctx.violation(name + ' reads unchecked', '%s reads from its file %s (%s)' % (name, why, F.loc(I)), F.loc(I))
    if not h.bad: ctx.ok(name + ' reads only after a successful check')
    for e in a.exits:
        if e['kind'] != 'ret': continue
        st = {s for b, s in e['st'].ps}
        ctx.check(name + ' return', st <= {'C'}, '%s can return normally %s' % (name, 'although its file could not be opened' if 'F' in st else 'without having checked its file'), F.loc(e['I']))
    # entries read into fixed storage
    size = {}
    at = re.findall(r'std::array<', F.dem)
    pa = [x for x in F.args if x['ty'] == 'ptr'][1:]
    ar = [total(x) for x in split(F.dem)]
    for p, n in zip(pa, ar[1:] if len(ar) > len(pa) else ar):
        if n: size[A(('arg', p['id']))] = n
    for I, st, args in a.sites:
        d = I.get('dem') or ''
        if 'operator>>' in d and len(args) == 2 and args[1][0] == 'ptr':
            b, off = args[1][1], args[1][2]
            n = size.get(b)
            if n is None: continue
            B_ = Bounds(a); ctx.analysed['call_sites'] += 1
            for what, q in (('before the first', off), ('behind the last', sub(const(8 * n - 8), off))):
                r = B_.ge0(st, q)
                if r is None and any(AT[x][0] == 'call' for x in __import__('vf.term', fromlist=['atoms']).atoms(q)): r = None
                if r: ctx.ok('%s entry not %s' % (name, what))
                elif r is None: ctx.undecided(name + ' entry', 'cannot bound %s' % show(off))
                else: ctx.violation('%s stores %s entry' % (name, what), '%s: an entry read at %s can be stored %s of the %d entries (offset %s)' % (name, F.loc(I), what, n, show(off)), F.loc(I))
    # views handed out
    if 'span<' in F.dem:
        spans = [x for x in F.args if x['ty'] == 'ptr'][1:3]; n = atom(('arg', F.args[-1]['id']))
        for e in a.exits:
            if e['kind'] != 'ret': continue
            st = e['st']
            for k, sp in enumerate(spans):
                b = A(('arg', sp['id'])); p, ln = a.read(st, b, 0), topoly(a.read(st, b, 8))
                pp = toptr(p); x = AT[pp[1]]
                if x[0] != 'E' or pp[2] != ZERO: ctx.undecided(name + ' view', 'start %s' % show(p)); continue
                size_ = scale(sub(topoly(ptr(('E', x[1], x[2] + 8))), topoly(p)), 0.125)
                size0 = scale(sub(topoly(ptr(('E', x[1], x[2] + 8 - 24 * k if x[2] >= 24 else x[2] + 8))), topoly(ptr(('E', x[1], x[2] - 24 * k if x[2] >= 24 else x[2])))), 0.125)
                Bd = Bounds(a)
                if ln == size_: ctx.ok(name + ' view of the whole table'); continue
                r1 = Bd.ge0(st, ln); r2 = Bd.ge0(st, sub(size_, ln)) or Bd.ge0(st, sub(size0, ln))
                ctx.check(name + ' view', r1 is True and r2 is True, '%s hands out a view of %s entries that can be longer than the table' % (name, show(ln)), F.loc(e['I']))

def split(dem):
    """parameter types of a demangled function"""
    d = 0; out = []; cur = ''
    i = dem.index('>(') + 2 if '>(' in dem else dem.index('(') + 1
    for c in dem[i:]:
        if c in '<(': d += 1
        if c in '>)':
            d -= 1
            if d < 0: break
        if c == ',' and d == 0: out.append(cur); cur = ''
        else: cur += c
    return out + [cur]

def total(t):
    if 'span' in t or 'vector' in t: return None
    n = 1; f = False
    for k in re.findall(r', (\d+)ul>', t): n *= int(k); f = True
    return n if f else None
