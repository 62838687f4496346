"""Builds the analysis tool and the bitcode of /repo's current tree (never executes repository code)."""
import shutil, hashlib, json, os, re, subprocess, sys, fcntl, glob
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
LLVM = '/usr/lib/llvm-18'

class BuildError(Exception):
    pass

def _run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def _hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\1')
    return h.hexdigest()[:20]

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): self.f.close()

def clang():
    for c in ('clang++-18', LLVM + '/bin/clang++', 'clang++'):
        if subprocess.run(['sh', '-c', 'command -v ' + c], capture_output=True).returncode == 0: return c
    raise BuildError('no clang++')

def tool():
    src = os.path.join(VERIF, 'engine', 'slir.cpp')
    exe = os.path.join(BUILD, 'slir-' + _hash([src]))
    with Lock('tool'):
        if not os.path.exists(exe):
            cfg = LLVM + '/bin/llvm-config'
            cxx = [f for f in _run([cfg, '--cxxflags']).stdout.split() if not f.startswith('-std')]
            ld = _run([cfg, '--ldflags']).stdout.split()
            p = _run([clang(), '-O1', '-std=c++17', '-fno-rtti', '-w'] + cxx + [src, '-o', exe + '.tmp'] + ld + ['-lLLVM-18'])
            if p.returncode: raise BuildError('cannot build slir:\n' + p.stderr[-3000:])
            os.rename(exe + '.tmp', exe)
    return exe

def src_files():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith(('.cpp', '.hpp', '.h', '.txt', '.c', '.cc', '.inl', '.ipp')): r.append(os.path.join(d, f))
    for d in (os.path.join(REPO, 'cmake'),):
        for dd, _, fs in os.walk(d):
            r += [os.path.join(dd, f) for f in fs]
    r.append(os.path.join(REPO, 'CMakeLists.txt'))
    return [f for f in r if os.path.isfile(f)]

WIT_HEAD = '#include "slide.hpp"\n#include "utility/io/read_CSVfiles.hpp"\nusing namespace slide;\n'
WIT = [
 'void vfw_1(std::filesystem::path p) { Matrix<double, 3, 2> m; loadCSV_mat(p, m); }',
 'void vfw_2(std::filesystem::path p) { std::array<double, 3> a; loadCSV_1col(p, a); }',
 'void vfw_3(std::filesystem::path p) { std::vector<double> vx, vy; loadCSV_2col(p, vx, vy, 3); }',
 'void vfw_4(std::filesystem::path p) { std::array<double, 5> ax, ay; loadCSV_2col(p, ax, ay, 3); }',
 'void vfw_5(std::filesystem::path p) { std::span<double> sx, sy; loadCSV_2col(p, sx, sy, 3); }',
 'void vfw_6(std::filesystem::path p) { DynamicMatrix<double> dm; loadCSV_Ncol(p, dm, 3); }',
 'double vfw_7(std::vector<double>& x, std::vector<double>& y, bool v, bool b, bool f, int n, double q) { return linInt(v, b, x, y, n, q, f); }',
 'double vfw_8(std::span<double> sx, bool v, bool b, bool f, int n, double q) { return linInt(v, b, sx, sx, n, q, f); }',
 'double vfw_9(std::array<double,7>& ay, bool v, bool b, bool f, double q) { return linInt(v, b, ay, ay, 7, q, f); }',
 'bool vfw_s1(Status s) { return isStatusSafe(s); }', 'bool vfw_s2(Status s) { return isCCLimitReached(s); }', 'bool vfw_s3(Status s) { return isCVLimitReached(s); }',
 'bool vfw_s4(Status s) { return isStatusSuccessful(s) || isStatusFailed(s) || isStatusOK(s) || isStatusBad(s) || isStatusWarning(s); }',
 'bool vfw_s5(Status s) { return isLimitsReached(s) || isStatusVoltageLimitsViolated(s) || isCurrentLimitReached(s) || isVoltageLimitReached(s); }',
 'double vfw_t1(Cell_SPM& c) { return c.Tmin(); }', 'double vfw_t2(Cell_SPM& c) { return c.Tmax(); }',
 'double vfw_va() { return settings::MODULE_P_V_ABSTOL; }', 'double vfw_vr() { return settings::MODULE_P_V_RELTOL; }',
 'const char* vfw_s6(Status s) { return getStatusMessage(s); }',
 'void vfw_d1(Deep_ptr<StorageUnit>& a, const Deep_ptr<StorageUnit>& b) { a = b; }', 'void vfw_d2(Deep_ptr<CoolSystem>& a, const Deep_ptr<CoolSystem>& b) { a = b; }',
 'void vfw_d3(Deep_ptr<Module>& a, const Deep_ptr<Module>& b) { a = b; }', 'Deep_ptr<StorageUnit> vfw_d4(const Deep_ptr<Cell_SPM>& b) { return b; }',
 'Deep_ptr<StorageUnit> vfw_d5(const std::unique_ptr<Cell_SPM>& b) { return b; }', 'Cell_SPM* vfw_k1(Model_SPM* m) { return new Cell_KokamNMC(m, 1); }',
 'template class slide::Cell_ECM<0>;', 'template class slide::Cell_ECM<1>;', 'template class slide::Cell_ECM<2>;',
 'template class slide::SmallVector<uint_fast8_t, 10>;', 'template class slide::Histogram<>;',
]
WITNESS = WIT_HEAD + '\n'.join(WIT) + '\n'

def witness(path, cmd):
    """write the witness unit; pieces whose interface no longer exists are left out"""
    open(path, 'w').write(WITNESS)
    c = cmd + ['-fsyntax-only', path]
    if _run(c).returncode == 0: return
    keep = []
    for w in WIT:
        open(path, 'w').write(WIT_HEAD + w + '\n')
        if _run(c).returncode == 0: keep.append(w)
    open(path, 'w').write(WIT_HEAD + '\n'.join(keep) + '\n')

def compile_commands():
    """compile flags of every library source of the current tree, from a configure-only cmake run."""
    cm = os.path.join(BUILD, 'cm')
    subprocess.run(['rm', '-rf', cm])
    p = _run(['cmake', '-S', REPO, '-B', cm, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'])
    L = {}
    try:
        for c in json.load(open(os.path.join(cm, 'compile_commands.json'))):
            f = os.path.normpath(os.path.join(c['directory'], c['file']))
            if f.startswith(os.path.join(REPO, 'src') + '/'):
                L[f] = [t for t in c['command'].split() if t.startswith(('-I', '-D'))]
    except OSError:
        raise BuildError('cmake configure failed:\n' + p.stderr[-2000:])
    subprocess.run(['rm', '-rf', cm])
    if not L: raise BuildError('no compile commands')
    return L

FLAGS = ('-std=c++20 -O1 -flto -fvisibility=hidden -fwhole-program-vtables -fstandalone-debug '
         '-Xclang -disable-llvm-passes -g -w -ferror-limit=5').split()

def shim(d):
    """copy of libstdc++'s <numeric> whose reductions are not manually unrolled (same meaning, simple loop)."""
    p = _run([clang(), '-E', '-x', 'c++', '-std=c++20', '-'], input='#include <numeric>\n')
    m = re.search(r'"([^"]*/numeric)"', p.stdout)
    if not m: return []
    t = open(m.group(1)).read()
    t2 = t.replace('while ((__last - __first) >= 4)', 'while (false)').replace('while ((__last1 - __first1) >= 4)', 'while (false)')
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'numeric'), 'w').write(t2)
    return ['-isystem', d]

SETTINGS = os.path.join(REPO, 'src/settings/settings.hpp')
def setv(t, name, val):
    """settings text with one setting changed; None when the setting is not there"""
    t2, n = re.subn(r'(?m)^((?:[ \t]*(?:inline |static |constexpr |const )+[^\n=;{/]*\b%s\b\s*(?:=|\{)\s*)|(?:[ \t]*#define\s+%s\s+))[^;}\n/]+?(\s*(?:;|\}|//|$))' % (name, name), lambda m: m.group(1) + val + m.group(2), t)
    return t2 if n == 1 else None

def overlay(conf, d, tag):
    """clang arguments that overlay settings.hpp with other values under its original path"""
    t = open(SETTINGS).read()
    for n, v in conf:
        t = setv(t, n, v)
        if t is None: raise BuildError('setting %s not recognised' % n)
    p = os.path.join(d, 's%s.hpp' % tag); open(p, 'w').write(t)
    y = os.path.join(d, 'o%s.yaml' % tag)
    json.dump({'version': 0, 'roots': [{'type': 'file', 'name': SETTINGS, 'external-contents': p}]}, open(y, 'w'))
    return ['-ivfsoverlay', y]

def unit(st, cmd):
    """compile one unit, or take the result of an earlier run when the command and the content of every file it reads are the same"""
    out = cmd[-1]; name = os.path.basename(out)
    k = os.path.join(st, name); src = cmd[cmd.index('-c') + 1]
    same = lambda deps: [src if x == '@src' else x for x in deps]
    try:
        j = json.load(open(k + '.json'))
        if j['sign'] == sign2(same(j['deps']), cmd, src, out):
            shutil.copyfile(k, out); return None
    except (OSError, ValueError, KeyError): pass
    p = _run(cmd + ['-MD', '-MF', out + '.d'])
    if p.returncode: return p
    t = open(out + '.d').read().replace('\\\n', ' ').split(':', 1)[1]
    deps = [x.replace('\\ ', ' ') for x in re.split(r'(?<!\\)\s+', t.strip())]
    os.unlink(out + '.d')
    deps = sorted({'@src' if x == src else x for x in deps if os.path.isfile(x)})
    shutil.copyfile(out, k + '.tmp'); os.rename(k + '.tmp', k)
    json.dump({'deps': deps, 'sign': sign2(same(deps), cmd, src, out)}, open(k + '.json', 'w'))
    return p

def sign2(files, cmd, src, out):
    h = hashlib.sha256(json.dumps([c for c in cmd if c not in (out, src)] + [REPO]).encode())
    for f in files:
        h.update(('@src' if f == src else f).encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()

def bitcode(conf=()):
    """returns (list of bc files, key, list of translation units)"""
    files = src_files()
    src = _hash(files, 'v2' + ' '.join(FLAGS) + WITNESS + REPO)
    key = src + ''.join('-%s-%s' % (n, re.sub(r'\W', '', v)) for n, v in conf)
    d = os.path.join(BUILD, 'bc-' + key)
    with Lock('bc'):
        if not os.path.exists(os.path.join(d, 'done')):
            for old in glob.glob(os.path.join(BUILD, 'bc-*')):
                if not os.path.basename(old).startswith('bc-' + src) or old == d: subprocess.run(['rm', '-rf', old])
            os.makedirs(d)
            cn = ''.join('-%s-%s' % (n, re.sub(r'\W', '', v)) for n, v in conf)
            st = os.path.join(BUILD, 'oc' + cn)   # stable place: compiled units are kept and reused while everything they include is unchanged
            sh = shim(os.path.join(st, 'shim'))
            if conf: sh = sh + overlay(conf, st, 'c')
            L = compile_commands()
            wf = os.path.join(d, 'zz_witness.cpp')
            allI = sorted({i for l in L.values() for i in l})
            base = ['-I' + os.path.join(REPO, 'src')]
            witness(wf, [clang()] + FLAGS + sh + base + allI)
            jobs = [(f, [clang()] + FLAGS + sh + base + L[f] + ['-c', f, '-o', os.path.join(d, os.path.relpath(f, REPO).replace('/', '_') + '.bc')]) for f in sorted(L)]
            jobs.insert(0, ('witness', [clang()] + FLAGS + sh + base + allI + ['-femit-all-decls', '-c', wf, '-o', os.path.join(d, 'zz_witness.bc')]))
            with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                for (f, c), p in zip(jobs, ex.map(lambda j: unit(st, j[1]), jobs)):
                    if p is not None and p.returncode: raise BuildError('clang failed on %s:\n%s' % (f, p.stderr[-3000:]))
            bs = sorted(glob.glob(os.path.join(d, '*.bc')))
            p = _run([tool(), '--link', os.path.join(d, 'all'), *bs])
            if p.returncode: raise BuildError('linking failed: ' + p.stderr[-2000:])
            os.rename(os.path.join(d, 'all'), os.path.join(d, 'all.bc'))
            json.dump(sorted(L), open(os.path.join(d, 'done'), 'w'))
    tus = json.load(open(os.path.join(d, 'done')))
    return [os.path.join(d, 'all.bc')], key, tus

def slir(spec, conf=()):
    exe = tool(); bcs, key, tus = bitcode(conf)
    sj = json.dumps(spec, sort_keys=True)
    h = hashlib.sha256((sj + key + exe).encode()).hexdigest()[:20]
    out = os.path.join(os.path.dirname(bcs[0]), 'ir-' + h + '.json')
    with Lock('ir-' + h):
        if not os.path.exists(out):
            sp = out + '.spec'; open(sp, 'w').write(sj)
            p = _run([exe, sp, out + '.tmp'] + bcs)
            if p.returncode: raise BuildError('slir failed: ' + p.stderr[-2000:])
            os.rename(out + '.tmp', out)
    try: os.unlink(os.path.join(BUILD, 'ir-' + h + '.lock'))
    except OSError: pass
    d = json.load(open(out)); d['tus'] = tus
    return d

if __name__ == '__main__':
    print(tool()); b = bitcode(); print(len(b[0]), b[1])
