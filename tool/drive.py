"""Run one property's check: build the encodings from /repo's working tree, explore
them with sx, replay what the solver finds on a native build, write the evidence."""
import os, sys, json, time, hashlib, subprocess, re, threading, signal, queue
from concurrent.futures import ThreadPoolExecutor
import tree, dfp2c
from tree import VERIF, CACHE, REPO, CLANG, IRFLAGS, NCPU, sh
LLVM = '/usr/lib/llvm-18/bin/'
SX = os.path.join(CACHE, 'sx')
H = os.path.join(VERIF, 'h')

class Unit:
    """one harness compilation: source + defines; jobs = parameter tuples"""
    def __init__(self, name, src, defs=None, params=((),), stubs=(), t=60, bounds='', lib='', cost=1, optional=False, asan=True, hdr=None):
        self.name, self.src, self.defs, self.params = name, src, dict(defs or {}), [tuple(p) if isinstance(p, (tuple, list)) else (p,) for p in params]
        self.stubs, self.t, self.bounds, self.lib, self.cost = tuple(stubs), t, bounds, lib, cost
        self.optional = optional; self.asan = asan; self.hdr = hdr      # hdr: a source whose include path the harness needs

def build_sx():
    srcs = [os.path.join(VERIF, 'sx', f) for f in ('sx.cpp', 'expr.h', 'solver.h', 'Makefile')]
    key = hashlib.sha256(b''.join(open(f, 'rb').read() for f in srcs)).hexdigest()
    st = SX + '.key'
    if os.path.exists(SX) and os.path.exists(st) and open(st).read() == key: return
    r = sh(['make', '-B', '-C', os.path.join(VERIF, 'sx'), 'OUT=' + SX])
    if r.returncode: raise RuntimeError('building sx: ' + r.stderr[-800:])
    open(st, 'w').write(key)

def harness_c(u, T=None):
    inc = [f for s in T.flags if s.endswith(u.hdr) for f in T.flags[s] if f[:2] in ('-I', '-D')] if u.hdr else []
    if u.hdr and not inc: raise RuntimeError('no source ' + u.hdr)
    cmd = ['gcc', '-E', '-P', '-I' + H] + inc + ['-D%s=%s' % kv for kv in sorted(u.defs.items())] + [os.path.join(H, u.src)]
    r = sh(cmd)
    if r.returncode: raise RuntimeError('harness %s: %s' % (u.name, r.stderr[-800:]))
    return r.stdout

MATHSX = ','.join('__sxf_%s%d' % (o, w) for o in ('add', 'sub', 'mul', 'div') for w in (32, 64))

class Build:
    def __init__(self, T, u):
        self.T, self.u = T, u
        txt = harness_c(u, T)
        self.htxt = txt
        out, low, _ = dfp2c.translate(txt, 'h')
        self.roots = set().union(*low.calls.values()) - set(low.calls)
        self.low = low; self.out = out
    def link(self):
        u, T = self.u, self.T
        rt = open(os.path.join(H, 'rt.c')).read()
        self.srcs, self.funcs = T.closure(self.roots, u.stubs)
        key = hashlib.sha256((self.out + rt + tree.TOOLHASH + repr(u.stubs) + ''.join(T.base[s] for s in self.srcs)).encode()).hexdigest()[:24]
        d = os.path.join(CACHE, 'h'); os.makedirs(d, exist_ok=True)
        self.bc = os.path.join(d, key + '.bc')
        if os.path.exists(self.bc): return self
        base = os.path.join(d, '%s.%d' % (key, os.getpid()))
        open(base + '.c', 'w').write(self.out)
        for c in ([CLANG, '-c', '-emit-llvm'] + IRFLAGS + [base + '.c', '-o', base + '.h.bc'],
                  [CLANG, '-c', '-emit-llvm'] + IRFLAGS + [os.path.join(H, 'rt.c'), '-o', base + '.rt.bc']):
            r = sh(c)
            if r.returncode: raise RuntimeError('clang %s: %s' % (u.name, r.stderr[-900:]))
        r = sh([LLVM + 'llvm-link', base + '.h.bc', base + '.rt.bc'] + [T.base[s] + '.bc' for s in self.srcs] + ['-o', base + '.all.bc'])
        if r.returncode: raise RuntimeError('llvm-link %s: %s' % (u.name, r.stderr[-900:]))
        r = sh([LLVM + 'opt', '-passes=internalize,globaldce', '-internalize-public-api-list=harness,' + MATHSX, base + '.all.bc', '-o', base + '.bc'])
        if r.returncode: raise RuntimeError('opt %s: %s' % (u.name, r.stderr[-900:]))
        os.rename(base + '.bc', self.bc)
        for e in ('.c', '.h.bc', '.rt.bc', '.all.bc'): os.unlink(base + e)
        return self

# ---------------------------------------------------------------- native replay
def gcc_obj(T, src, extra):
    key = hashlib.sha256((T.text[src] + repr(T.flags[src]) + repr(extra)).encode()).hexdigest()[:24]
    o = os.path.join(CACHE, 'nat', key + '.o')
    if os.path.exists(o): return o
    os.makedirs(os.path.dirname(o), exist_ok=True)
    t = o + '.%d.%d' % (os.getpid(), threading.get_ident())
    fl = [f for f in T.flags[src]]
    if '-DSHARED' not in fl: fl.append('-DSHARED')
    i = t + '.i'; open(i, 'w').write(T.text[src])
    r = sh(['gcc', '-c', '-O2', '-g', '-w', '-std=gnu11', '-fno-inline', '-fpic', '-ffunction-sections', '-fdata-sections'] + extra + [i, '-o', t])
    os.unlink(i)
    if r.returncode: raise RuntimeError('gcc %s: %s' % (src, r.stderr[-600:]))
    os.rename(t, o)
    return o

class Native:
    def __init__(self, b, san=False):
        T = b.T
        srcs, _ = T.closure(b.roots, ())
        extra = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,shift'] if san else []
        with ThreadPoolExecutor(NCPU) as p: objs = list(p.map(lambda s: gcc_obj(T, s, extra), srcs))
        # units reached only through data or constructors
        key = hashlib.sha256((b.htxt + open(os.path.join(H, 'native.c')).read() + ''.join(objs) + repr(extra)).encode()).hexdigest()[:24]
        self.exe = os.path.join(CACHE, 'nat', key)
        if os.path.exists(self.exe): return
        t = self.exe + '.%d.%d' % (os.getpid(), threading.get_ident())
        open(t + '.c', 'w').write(b.htxt)
        r = sh(['gcc', '-O1', '-g', '-w', '-std=gnu11', '-no-pie'] + extra + [t + '.c', os.path.join(H, 'native.c')] + objs + ['-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy', '-Wl,-w', '-lm', '-lpthread', '-o', t])
        if r.returncode: raise RuntimeError('native link %s: %s' % (b.u.name, r.stderr[-900:]))
        os.unlink(t + '.c'); os.rename(t, self.exe)
    def run(self, inputs, params, timeout=60):
        f = os.path.join(CACHE, 'nat', 'in.%d.%d' % (os.getpid(), threading.get_ident()))
        open(f, 'w').write(''.join('%s %d\n' % (k, v) for k, v in inputs.items()))
        env = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1')
        try: r = subprocess.run([self.exe, f] + [str(p) for p in params], capture_output=True, text=True, errors='replace', timeout=timeout, env=env)
        except subprocess.TimeoutExpired: os.unlink(f); return 'timeout', '', ''
        os.unlink(f)
        return r.returncode, r.stdout, r.stderr

def inp(l):
    return {k: int(v) for k, v in (l.items() if isinstance(l, dict) else l)}

# ---------------------------------------------------------------- one property
class Check:
    def __init__(self, pid, units, level='model_checking', assumptions=(), notes=''):
        self.pid, self.units, self.assumptions, self.notes = pid, units, list(assumptions), notes

    def run(self, tier='quick', only=None, wit=2, verbose=False, budget=None):
        t0 = time.time(); pid = self.pid
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        err = {}
        def bg():
            try: build_sx()
            except Exception as e: err['sx'] = repr(e)
        th = threading.Thread(target=bg); th.start()
        T = tree.Tree()
        units = [u for u in self.units if not only or re.search(only, u.name)]
        with ThreadPoolExecutor(NCPU) as p: builds = list(p.map(lambda u: Build(T, u), units))
        th.join()
        if err: raise RuntimeError(err['sx'])
        allr = set().union(*[b.roots for b in builds])
        T.closure(allr)                       # lower everything in one parallel batch
        with ThreadPoolExecutor(NCPU) as p: list(p.map(lambda b: b.link(), builds))
        tb = time.time() - t0
        jobs = [(b, p) for b in builds for p in b.u.params]
        jobs.sort(key=lambda j: -j[0].u.cost)
        budget = budget or (700 if tier == 'quick' else 3000)
        jd = os.path.join(CACHE, 'run', '%s.%d' % (pid, os.getpid())); os.makedirs(jd, exist_ok=True)
        res = []; procs = set()
        def one(ij):
            i, (b, p) = ij
            left = t0 + budget - time.time()
            if left < 2: return (b, p, {'status': 'error', 'error': 'not started (budget)'})
            o = os.path.join(jd, '%d.json' % i)
            tl = min(b.u.t if tier == 'quick' else b.u.t * 4, left)
            cmd = [SX, b.bc, '-o', o, '-e', 'harness', '-t', '%.0f' % tl, '--wit', str(wit)]
            for x in p: cmd += ['-p', str(x)]
            try: r = subprocess.run(['prlimit', '--as=12000000000'] + cmd, capture_output=True, text=True, errors='replace', timeout=tl + 15)
            except subprocess.TimeoutExpired: return (b, p, {'status': 'error', 'error': 'time limit (hard)'})
            try: d = json.load(open(o))
            except Exception: d = {'status': 'error', 'error': 'sx died: ' + (r.stderr or '')[-300:]}
            if verbose: print('  %-28s %-24s %s paths=%s q=%s t=%.1f %s' % (b.u.name, p, d.get('status'), d.get('paths'), d.get('queries'), d.get('wall_s', 0), d.get('error', '')[:150]), flush=True)
            return (b, p, d)
        with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(one, enumerate(jobs)))
        subprocess.run(['rm', '-rf', jd])
        return self.finish(T, res, tier, seed, t0, tb, verbose)

    def finish(self, T, res, tier, seed, t0, tb, verbose):
        pid = self.pid
        known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if k['property'] == pid and k['status'] == 'known']
        tot = dict(paths=0, steps=0, forks=0, asserts=0, folded=0, queries=0, unknown=0, cvc5=0, infeasible=0, assume_killed=0)
        solver = 0.0; funcs = set(); undec = []; covers = {}; amsgs = {}; smax = 0.0
        viol = {}; wits = []; perunit = {}
        for b, p, d in res:
            pu = perunit.setdefault(b.u.name, dict(jobs=0, decided=0, paths=0, queries=0, solver_s=0.0, bounds=b.u.bounds, params=[]))
            pu['jobs'] += 1; pu['paths'] += d.get('paths', 0); pu['queries'] += d.get('queries', 0); pu['solver_s'] = round(pu['solver_s'] + d.get('solver_s', 0), 2)
            if len(pu['params']) < 400: pu['params'].append(list(p))
            ok = d.get('status') == 'ok' and not d.get('undecided')
            pu['decided'] += ok
            for k in tot: tot[k] += d.get(k, 0) or 0
            solver += d.get('solver_s', 0); smax = max(smax, d.get('solver_max_s', 0) or 0)
            funcs.update(d.get('functions', []))
            for k, v in (d.get('covers') or {}).items(): covers[k] = covers.get(k, 0) + v
            for k, v in (d.get('assert_msgs') or {}).items(): amsgs[k] = amsgs.get(k, 0) + v
            if not ok: undec.append('%s%s: %s' % (b.u.name, list(p), d.get('error') or '; '.join(d.get('undecided', []))[:200]))
            for v in d.get('violations', []): viol.setdefault((b.u.name, v['msg']), []).append((b, p, v))
            for w in d.get('witnesses', [])[:3]: wits.append((b, p, w))
        rep = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rep, exist_ok=True)
        nats = {}; lock = threading.Lock()
        def nat(b, san):
            with lock:
                k = (b.bc, san)
                if k not in nats: nats[k] = Native(b, san)
            return nats[k]
        confirmed = []; unconf = []; kfs = {}
        items = sorted(viol.items())
        for (un, msg), lst in items:
            if len(confirmed) >= 12: break
            done = False; last = None
            for b, p, v in lst[:6]:
                inputs = inp(v['inputs'])
                # memory errors show up under the sanitizers; functional ones in the plain build
                for san in ((False, True) if b.u.asan else (False,)):
                    n = nat(b, san)
                    rc, out, er = n.run(inputs, p)
                    last = (rc, out[-300:], er[-300:])
                    fails = re.findall(r'^FAIL (.*)$', out, re.M)
                    crash = rc == 'timeout' or (isinstance(rc, int) and (rc < 0 or ('Sanitizer' in er or 'runtime error' in er)))
                    if msg in fails or (crash and not fails) or fails:
                        kf = [k for k in known if fails and any(f.startswith(k['id'] + ':') for f in fails)]
                        hard = [f for f in fails if not any(f.startswith(k['id'] + ':') for k in known)]
                        if fails and not hard:
                            for k in kf: kfs.setdefault(k['id'], (k, inputs, p))
                        else:
                            f = os.path.join(rep, '%s-%s.json' % (pid, hashlib.sha256((un + msg).encode()).hexdigest()[:8]))
                            json.dump(dict(property=pid, unit=un, harness=b.u.src, defines=b.u.defs, params=list(p), inputs=inputs, message=(hard or [msg])[0], where=v.get('where'), native_exit=rc, native_out=out[-2000:], native_err=er[-2000:],
                                           rerun='python3 /verif/check.py --replay %s' % f), open(f, 'w'), indent=1)
                            confirmed.append((f, un, p, (hard or [msg])[0], inputs))
                        done = True; break
                if done: break
            if not done: unconf.append(dict(unit=un, msg=msg, params=list(lst[0][1]), inputs=inp(lst[0][2]['inputs']), where=lst[0][2].get('where'), native=last))
        # replay sampled path witnesses: the encoding must predict the native outputs
        validated = 0; mism = []; samples = []
        import random; rnd = random.Random(seed); rnd.shuffle(wits)
        wsel = {}
        for w in wits: wsel.setdefault(w[0].u.name, []).append(w)
        pick = [x for l in wsel.values() for x in l[:max(2, 48 // max(1, len(wsel)))]]
        def rw(w):
            b, p, x = w
            n = nat(b, False); rc, out, er = n.run(inp(x['inputs']), p)
            return rc, out, er
        bl = {}
        for w in pick: bl.setdefault(w[0].bc, w[0])
        with ThreadPoolExecutor(4) as ex: list(ex.map(lambda b: nat(b, False), bl.values()))
        with ThreadPoolExecutor(NCPU) as ex: outs = list(ex.map(rw, pick))
        for (b, p, x), (rc, out, er) in zip(pick, outs):
            got = [(a, int(c)) for a, c in re.findall(r'^OUT (\S+) (\d+)$', out, re.M)]
            want = [(k, int(v)) for k, v in (x['outs'].items() if isinstance(x['outs'], dict) else x['outs'])]
            kfonly = [f for f in re.findall(r'^FAIL (.*)$', out, re.M) if not any(f.startswith(k['id'] + ':') for k in known)]
            if 'DONE' in out and got == want and not kfonly: validated += 1
            else: mism.append(dict(unit=b.u.name, params=list(p), inputs=inp(x['inputs']), predicted=want[:8], native=got[:8], rc=rc, fails=kfonly[:3]))
            if len(samples) < 6: samples.append(dict(unit=b.u.name, params=list(p), inputs=inp(x['inputs']), outputs=want[:6]))
        # a witness whose native run fails an assertion is itself a counterexample
        for m in mism:
            if m['fails'] and not confirmed:
                f = os.path.join(rep, '%s-w.json' % pid)
                b = [b for b, _, _ in res if b.u.name == m['unit']][0]
                json.dump(dict(property=pid, unit=m['unit'], harness=b.u.src, defines=b.u.defs, params=m['params'], inputs=m['inputs'], message=m['fails'][0]), open(f, 'w'), indent=1)
                confirmed.append((f, m['unit'], m['params'], m['fails'][0], m['inputs']))
        decided = sum(x['decided'] for x in perunit.values()); nj = len(res)
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
                  coverage=dict(states=tot['paths'], transitions=tot['steps'], traces_validated_against_impl=validated,
                                samples=samples or [dict(note='no path completed')],
                                jobs=nj, jobs_decided=decided, forks=tot['forks'], infeasible_branches=tot['infeasible'],
                                assertions_checked=tot['asserts'], assertions_decided_by_simplifier=tot['folded'], solver_queries=tot['queries'], queries_unknown=tot['unknown'], queries_sent_to_cvc5=tot['cvc5'],
                                solver_s=round(solver, 2), solver_max_query_s=round(smax, 2), build_s=round(tb, 1),
                                functions_encoded=sorted(funcs), units=perunit, assertions=amsgs, reachability_witnesses=covers,
                                undecided=undec[:60], unconfirmed=unconf[:10], witness_mismatches=mism[:10], known_findings=sorted(kfs), exhaustive=False),
                  assumptions=self.assumptions, wall_s=round(time.time() - t0, 1), violations=len(confirmed))
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%s: %d/%d jobs decided, %d paths, %d assertions, %d queries, solver %.1fs, %d traces replayed, build %.1fs, wall %.1fs' % (pid, decided, nj, tot['paths'], tot['asserts'], tot['queries'], solver, validated, tb, time.time() - t0))
        for k, (kf, i, p) in sorted(kfs.items()): print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, kf['what']))
        for u in undec[:20]: print('UNDECIDED ' + u)
        for u in unconf: print('UNCONFIRMED %s' % json.dumps(u)[:600])
        for m in mism[:5]: print('MISMATCH %s' % json.dumps(m)[:500])
        for f, un, p, msg, i in confirmed: print('  violated: %s %s %s %s' % (un, list(p), msg, json.dumps(i)[:300])); print('VIOLATION property=%s replay=%s' % (pid, f))
        sys.stdout.flush()
        if confirmed: return 1
        unreached = [u for u in perunit if perunit[u]['decided'] and not perunit[u]['paths']]
        if unreached: print('VACUOUS ' + ' '.join(unreached)); return 3
        if decided == 0 or decided * 2 < nj: print('%s: too little decided' % pid); return 3
        if mism and len(mism) > len(pick) // 10 + 1: return 3
        return 0
