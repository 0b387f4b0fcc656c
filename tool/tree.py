"""Index of /repo's translation units; lazily lowers the ones a harness needs.

Everything is derived from /repo's working tree on every run: the list of
units and their flags come from the makefiles (make -n), each unit is
preprocessed with those flags, and the lowering cache is keyed by the hash of
the preprocessed text, so a cached object can never stand for changed code.
"""
import os, re, sys, subprocess, hashlib, json, pickle, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
CACHE = os.environ.get('VP_CACHE', os.path.join(VERIF, '.cache'))
sys.path.insert(0, HERE)
os.makedirs(CACHE, exist_ok=True)
NCPU = os.cpu_count() or 8

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def build_dir():
    b = os.path.join(REPO, '_build')
    if os.path.exists(os.path.join(b, 'Makefile')) and os.path.exists(os.path.join(b, 'config.h')):
        return b
    b = os.path.join(CACHE, 'conf')
    if not os.path.exists(os.path.join(b, 'config.h')):
        os.makedirs(b, exist_ok=True)
        env = dict(os.environ, LC_ALL='C', CC='gcc', CXX='g++', AWK='gawk', CFLAGS='-O2 -g', CXXFLAGS='-O2 -g')
        r = subprocess.run([os.path.join(REPO, 'configure'), '--prefix=' + b + '/install'], cwd=b, env=env, capture_output=True, text=True)
        if r.returncode: raise RuntimeError('configure failed: ' + r.stderr[-500:])
        if not os.path.exists(os.path.join(REPO, 'libbid/bid_binarydecimal.c')):
            open(os.path.join(b, 'bid_binarydecimal.c'), 'w').write('/* placeholder */\n')
    return b

def unit_list():
    """[(source, [flags])] from the makefiles"""
    b = build_dir()
    env = dict(os.environ); env.pop('MAKEFLAGS', None); env.pop('MAKELEVEL', None)
    r = subprocess.run(['make', '-n', '-B', '-o', 'Makefile', '--no-print-directory'], cwd=b, env=env, capture_output=True, text=True)
    units = {}
    for l in r.stdout.splitlines():
        m = re.search(r'-c (%s/\S+\.c)\s' % re.escape(REPO), l)
        if not m or '/tests/' in m.group(1): continue
        toks = l.split()
        fl = []
        i = 0
        while i < len(toks):
            t = toks[i]
            if t == '-include': fl += [t, os.path.normpath(os.path.join(b, toks[i + 1]))]; i += 2; continue
            if t.startswith('-I'): fl.append('-I' + os.path.normpath(os.path.join(b, t[2:])))
            elif t.startswith(('-D', '-std=', '-U')): fl.append(t)
            i += 1
        src = m.group(1)
        if src not in units or '-DSHARED' in fl: units[src] = fl
    if len(units) < 100: raise RuntimeError('cannot list translation units: ' + r.stderr[-400:])
    return sorted(units.items())

def preprocess(u):
    src, fl = u
    fl = list(fl)
    if '-DSHARED' not in fl: fl.append('-DSHARED')
    r = sh(['gcc', '-E', '-P', '-O2', '-fno-inline', '-fpic', '-U_FORTIFY_SOURCE'] + fl + [src])
    if r.returncode: raise RuntimeError('preprocess %s: %s' % (src, r.stderr[-500:]))
    return src, r.stdout

def defined(text):
    """names of functions defined at file scope (cheap scan) and of data objects"""
    text = re.sub(r'"(?:\\.|[^"\\\n])*"', '""', text)
    text = re.sub(r"'(?:\\.|[^'\\\n])+'", '0', text)
    names = set(); depth = 0; seg = 0
    for m in re.finditer(r'[{};]', text):
        c = m.group(0)
        if c == '{':
            if depth == 0:
                h = text[seg:m.start()]
                if not re.search(r'\b(typedef|struct|union|enum)\s*\w*\s*$', h):
                    if '=' in h: h2 = h.split('=')[0]; mm = re.search(r'(\w+)\s*(\[[^\]]*\]\s*)*$', h2); kind = 'd'
                    else: mm = re.search(r'(\w+)\s*\(', h); kind = 'f'
                    if mm and not re.search(r'\binline\b|\b__inline', h): names.add((kind, mm.group(1), bool(re.search(r'\bstatic\b', h))))
            depth += 1
        elif c == '}':
            depth -= 1
            if depth == 0: seg = m.end()
        elif depth == 0:
            h = text[seg:m.start()]
            if 'extern' not in h and 'typedef' not in h and '(' not in h.split('=')[0]:
                mm = re.search(r'(\w+)\s*(\[[^\]]*\]\s*)*(=.*)?$', h.strip(), re.S)
                if mm: names.add(('d', mm.group(1), bool(re.search(r'\bstatic\b', h))))
            seg = m.end()
    for m in re.finditer(r'extern\s+__typeof\s*\(\s*(\w+)\s*\)\s*(\w+)\s*__attribute__\s*\(\([^;]*?alias\s*\(\s*"(\w+)"', text.replace('""', '"x"')): pass
    return names

CLANG = '/usr/bin/clang-18' if os.path.exists('/usr/bin/clang-18') else '/usr/lib/llvm-18/bin/clang'
IRFLAGS = ['-O1', '-w', '-fno-strict-aliasing', '-fwrapv', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off',
           '-fno-builtin', '-fno-stack-protector', '-Xclang', '-no-opaque-pointers'][:-2]

def _lower(job):
    src, text, flags = job
    import dfp2c
    h = hashlib.sha256((text + TOOLHASH).encode()).hexdigest()[:24]
    base = os.path.join(CACHE, 'tu', h)
    if os.path.exists(base + '.json') and os.path.exists(base + '.bc'): return src, base, None
    os.makedirs(os.path.dirname(base), exist_ok=True)
    try:
        out, low, aliases = dfp2c.translate(text, os.path.basename(src))
    except Exception as e:
        return src, None, 'lowering %s: %r' % (src, e)
    tmp = base + '.%d' % os.getpid()
    open(tmp + '.c', 'w').write(out)
    r = sh([CLANG, '-c', '-emit-llvm'] + IRFLAGS + [tmp + '.c', '-o', tmp + '.bc'])
    if r.returncode: return src, None, 'clang %s: %s' % (src, (r.stdout + r.stderr)[-900:])
    json.dump({'src': src, 'defs': low.defs, 'calls': {k: sorted(v) for k, v in low.calls.items()}, 'intr': sorted(low.used_intrinsics)}, open(tmp + '.json', 'w'))
    for e in ('.c', '.bc', '.json'): os.rename(tmp + e, base + e)
    return src, base, None

TOOLHASH = hashlib.sha256(open(os.path.join(HERE, 'dfp2c.py'), 'rb').read() + open(os.path.abspath(__file__), 'rb').read()).hexdigest()

class Tree:
    def __init__(self):
        units = unit_list()
        with ThreadPoolExecutor(NCPU) as p: self.text = dict(p.map(preprocess, units))
        self.flags = dict(units)
        self.where = {}
        for src, t in self.text.items():
            for m in re.finditer(r'extern\s+__typeof\s*\(\s*(\w+)\s*\)\s*(\w+)\s*__attribute__\s*\(\([^;]*?alias\s*\(\s*"(\w+)"', t):
                self.where.setdefault(m.group(2), src)
            for k, n, st in defined(t):
                if not st: self.where.setdefault(n, src)
        self.base = {}
        self.odir = None
        self.info = {}

    def overlay(self):
        """a copy of the directories that define multi-word macros, proved definitions replaced by their contract"""
        if self.odir: return
        import macros
        self.lemmas = {}
        out = {}
        for d in ('libbid', 'libdecnumber/bid'):
            for f in sorted(os.listdir(os.path.join(REPO, d))):
                if not f.endswith(('.c', '.h')): continue
                p = os.path.join(REPO, d, f)
                out[d + '/' + f], pr = macros.prove(p, CACHE, os.path.join(CACHE, 'sx'), os.path.join(VERIF, 'h', 'rt.c'), CLANG, '/usr/lib/llvm-18/bin/')
                if pr: self.lemmas[d + '/' + f] = pr
        h = hashlib.sha256(''.join(k + v for k, v in sorted(out.items())).encode()).hexdigest()[:16]
        o = os.path.join(CACHE, 'overlay', h)
        if not os.path.exists(o):
            t = o + '.%d' % os.getpid()
            for k, v in out.items():
                os.makedirs(os.path.dirname(os.path.join(t, k)), exist_ok=True); open(os.path.join(t, k), 'w').write(v)
            try: os.rename(t, o)
            except OSError: shutil.rmtree(t)
        self.odir = o

    def ltext(self, src):
        """preprocessed text to encode"""
        rel = os.path.relpath(src, REPO)
        if not rel.startswith(('libbid/', 'libdecnumber/bid/')): return self.text[src]
        fl = []
        for f in self.flags[src]:
            for d in ('libbid', 'libdecnumber/bid'):
                if f == '-I' + os.path.join(REPO, d): f = '-I' + os.path.join(self.odir, d)
            fl.append(f)
        U = 'unsigned long'; a = '(%s *, %s, %s, %s, %s);\n' % ((U,) * 5)
        return 'extern void __vc_mul' + a + 'extern void __vc_mulh' + a + preprocess((os.path.join(self.odir, rel), fl))[1]

    def lower(self, srcs):
        todo = [s for s in srcs if s not in self.base]
        if not todo: return
        self.overlay()
        with ThreadPoolExecutor(NCPU) as p: todo = [(s, t, None) for s, t in zip(todo, p.map(self.ltext, todo))]
        with ProcessPoolExecutor(min(NCPU, len(todo))) as p:
            for src, base, err in p.map(_lower, todo):
                if err: raise RuntimeError(err)
                self.base[src] = base
                self.info[src] = json.load(open(base + '.json'))

    def closure(self, roots, stubs=()):
        """translation units needed (transitively) by the functions `roots`; `stubs` are cut"""
        need = []; seenf = set(); srcs = set(); data_done = set()
        frontier = set(roots)
        funcs = set()
        while frontier:
            new = set()
            for f in frontier:
                if f in seenf or f in stubs: continue
                seenf.add(f)
                if f in self.where: new.add((f, self.where[f]))
            self.lower({s for _, s in new})
            frontier = set()
            for f, s in new:
                srcs.add(s)
                inf = self.info[s]
                st = [f] + inf['calls'].get('#data', [])
                while st:
                    g = st.pop()
                    if (s, g) in funcs or g in stubs: continue
                    if g in inf['calls']:
                        funcs.add((s, g)); st += inf['calls'][g]
                    else: frontier.add(g)
        return sorted(srcs), sorted(funcs)

if __name__ == '__main__':
    import time
    t = time.time(); T = Tree(); print(len(T.text), len(T.where), time.time() - t)
    t = time.time(); s, f = T.closure(sys.argv[1:]); print(len(s), len(f), time.time() - t)
    for x in s: print(x, T.base[x])
