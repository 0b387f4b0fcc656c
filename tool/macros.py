"""Contracts for the multi-word arithmetic macros of libbid and libdecnumber.

Each macro below has a contract (what it computes, over 128/256-bit integers).
For every definition of such a macro found in /repo's sources, sx proves on
each run that the macro text as it stands computes its contract for all
operand values (products of 32- or 64-bit halves are opaque, everything else
is exact); only proved definitions are replaced by their contract while
encoding.  A definition that cannot be proved (because it was changed, or
because the proof does not close) is encoded as it is written.  The native
replay always uses the original text.
"""
import os, re, json, hashlib, subprocess
from concurrent.futures import ThreadPoolExecutor

L = '(((unsigned __int128)(%s).w[1] << 64) | (%s).w[0])'
def l128(x): return L % (x, x)
def set128(q, v): return '{ unsigned __int128 vt_ = %s; (%s).w[1] = (UINT64)(vt_ >> 64); (%s).w[0] = (UINT64)vt_; }' % (v, q, q)
U = '(unsigned __int128)(UINT64)(%s)'
def m64(x, y): return '%s * %s' % (U % x, U % y)
def k(f, outs, *ins): return '{ UINT64 vq_[5]; %s(vq_, %s); %s }' % (f, ', '.join('(UINT64)(%s)' % i for i in ins), ' '.join('%s = vq_[%d];' % (o, i) for i, o in enumerate(outs)))
def w(x, n): return ['(%s).w[%d]' % (x, i) for i in range(n)]

# name -> (parameters, precondition or None, contract, signature)
# signature: u64 in 'u', u128 in 'd', outputs 'U','D','T'(192),'Q'(256); 'k' shift count, 'c' carry in
T = {}
def add(name, params, sig, con, pre=None, expr=False): T[name] = (params.split(), pre, con, sig.split(), expr)
for n in ('__mul_64x64_to_128', '__mul_64x64_to_128_full', '__mul_64x64_to_128MACH'):
    add(n, 'P X Y', 'D u u', set128('P', m64('X', 'Y')))
add('__mul_64x64_to_128HIGH', 'P X Y', 'U u u', '{ unsigned __int128 vt_ = %s; P = (UINT64)(vt_ >> 64); }' % m64('X', 'Y'))
add('__add_128_64', 'R A B', 'D d u', set128('R', l128('A') + ' + (UINT64)(B)'))
add('__sub_128_64', 'R A B', 'D d u', set128('R', l128('A') + ' - (UINT64)(B)'))
add('__add_128_128', 'R A B', 'D d d', set128('R', l128('A') + ' + ' + l128('B')))
add('__sub_128_128', 'R A B', 'D d d', set128('R', l128('A') + ' - ' + l128('B')))
add('__add_carry_out', 'S C X Y', 'U U u u', '{ unsigned __int128 vt_ = %s + %s; S = (UINT64)vt_; C = (UINT64)(vt_ >> 64); }' % (U % 'X', U % 'Y'))
add('__add_carry_in_out', 'S C X Y I', 'U U u u c', '{ unsigned __int128 vt_ = %s + %s + %s; S = (UINT64)vt_; C = (UINT64)(vt_ >> 64); }' % (U % 'X', U % 'Y', U % 'I'), '(UINT64)(I) <= 1')
add('__sub_borrow_out', 'S C X Y', 'U U u u', '{ unsigned __int128 vt_ = %s - %s; S = (UINT64)vt_; C = (UINT64)(vt_ >> 64) & 1; }' % (U % 'X', U % 'Y'))
add('__sub_borrow_in_out', 'S C X Y I', 'U U u u c', '{ unsigned __int128 vt_ = %s - %s - %s; S = (UINT64)vt_; C = (UINT64)(vt_ >> 64) & 1; }' % (U % 'X', U % 'Y', U % 'I'), '(UINT64)(I) <= 1')
add('__shr_128', 'Q A K', 'D d k', set128('Q', l128('A') + ' >> (K)'), '(unsigned)((K) - 1) < 63')
add('__shr_128_long', 'Q A K', 'D d k', set128('Q', l128('A') + ' >> (K)'), '(unsigned)((K) - 1) < 127')
add('__shl_128_long', 'Q A K', 'D d k', set128('Q', l128('A') + ' << (K)'), '(unsigned)((K) - 1) < 127')
add('__mul_128x64_to_128', 'Q A B', 'D u d', set128('Q', (U % 'A') + ' * ' + l128('B')))
for n in ('__mul_64x128_low', '__mul_64x128_short', '__mul_64x128_to_128'):
    add(n, 'Q A B', 'D u d', set128('Q', (U % 'A') + ' * ' + l128('B')))
add('__mul_128x128_low', 'Q A B', 'D d d', set128('Q', l128('A') + ' * ' + l128('B')))
add('__mul_64x128_full', 'P Q A B', 'U D u d', k('__vc_mul', w('Q', 2) + ['P'], 'A', '0', '(B).w[0]', '(B).w[1]'))
for n in ('__mul_64x128_to_192', '__mul_64x128_to192'):
    add(n, 'Q A B', 'T u d', k('__vc_mul', w('Q', 3), 'A', '0', '(B).w[0]', '(B).w[1]'))
PRE = '(A).w[1] <= 0x2000000000000ul && (B).w[1] <= 0xfffdfffffffffffeul'
add('__mul_128x128_high', 'Q A B', 'D h g', k('__vc_mulh', w('Q', 2), '(A).w[0]', '(A).w[1]', '(B).w[0]', '(B).w[1]'), PRE)
add('__mul_128x128_full', 'P Q A B', 'D D h g', k('__vc_mul', w('Q', 2) + w('P', 2), '(A).w[0]', '(A).w[1]', '(B).w[0]', '(B).w[1]'), PRE)
for n in ('__mul_128x128_to_256', '__mul_128x128_to_256_check_A'):
    add(n, 'P A B', 'Q d d', k('__vc_mul', w('P', 4), '(A).w[0]', '(A).w[1]', '(B).w[0]', '(B).w[1]'))
add('__unsigned_compare_gt_128', 'A B', 'd d', '(%s > %s)' % (l128('A'), l128('B')), None, True)
add('__unsigned_compare_ge_128', 'A B', 'd d', '(%s >= %s)' % (l128('A'), l128('B')), None, True)
add('__test_equal_128', 'A B', 'd d', '(%s == %s)' % (l128('A'), l128('B')), None, True)
ORDER = list(T)

DEF = re.compile(r'^[ \t]*#[ \t]*define[ \t]+(\w+)\(([^)]*)\)((?:[^\n]*\\\n)*[^\n]*)', re.M)
def definitions(text):
    return [(m.group(1), [p.strip() for p in m.group(2).split(',')], m.group(3), m.span()) for m in DEF.finditer(text) if m.group(1) in T]

def clean(body): return re.sub(r'\\\n', '\n', body)
def oneline(s): return re.sub(r'\s*\n\s*', ' ', re.sub(r'\\\n', ' ', s)).strip()
def rename(con, frm, to):
    """formal parameter names of the definition instead of the table's"""
    tmp = con
    for i, f in enumerate(frm): tmp = re.sub(r'(?<![\w.])%s(?!\w)' % f, '@%d@' % i, tmp)
    for i, t in enumerate(to): tmp = tmp.replace('@%d@' % i, t)
    return tmp

def contract_define(name, params, body):
    fp, pre, con, sig, expr = T[name]
    con = rename(con, fp, params)
    d = '#define %s(%s) ' % (name, ', '.join(params))
    if pre: return d + '{ if (%s) %s else %s }' % (rename(pre, fp, params), con, oneline(body))
    return d + con

PROL = '''typedef unsigned long UINT64; typedef long SINT64; typedef unsigned int UINT32; typedef struct { UINT64 w[2]; } UINT128; typedef struct { UINT64 w[3]; } UINT192; typedef struct { UINT64 w[4]; } UINT256;
extern void __vc_mul(UINT64 *, UINT64, UINT64, UINT64, UINT64); extern void __vc_mulh(UINT64 *, UINT64, UINT64, UINT64, UINT64);
extern UINT64 sx_range(const char *, UINT64, UINT64); extern void sx_assume(int); extern void sx_assert(int, const char *); extern void sx_opaque_mul(int); extern int sx_split(int); extern UINT64 sx_concretize(UINT64);
#define __mul_64x64_to_64(P64, CX, CY)  (P64) = (CX) * (CY)
'''
def lemma_c(name, params, body, defs):
    """C text proving one definition; defs: the other definitions in the same file"""
    fp, pre, con, sig, expr = T[name]
    o = [PROL]
    for n, p, b, _ in defs:
        if n != name: o.append(contract_define(n, p, b) if ORDER.index(n) < ORDER.index(name) else '#define %s(%s) %s' % (n, ', '.join(p), oneline(b)))
    o.append('#define ORIG_(%s) %s' % (', '.join(params), oneline(body)))
    o.append('#define CON_(%s) %s' % (', '.join(params), rename(con, fp, params)))
    h = ['void harness(void) {']
    half = '32' if name.startswith('__mul_64x64') else '64'
    args1, args2, chk, ins = [], [], [], []
    for i, s in enumerate(sig):
        v = 'abcde'[i]
        if s in 'uc':
            hi = '1' if s == 'c' else None
            if hi: h.append('UINT64 %s = sx_range("%s", 0, 1);' % (v, v))
            elif half == '32': h.append('UINT64 %s = sx_range("%sh", 0, 0xffffffff) << 32 | sx_range("%sl", 0, 0xffffffff);' % (v, v, v))
            else: h.append('UINT64 %s = sx_range("%s", 0, ~0ul);' % (v, v))
            args1.append(v); args2.append(v); ins.append((s, v))
        elif s in 'dhg':
            h.append('UINT128 %s; %s.w[0] = sx_range("%s0", 0, ~0ul); %s.w[1] = sx_range("%s1", 0, %s);' % (v, v, v, v, v, {'d': '~0ul', 'h': '0x2000000000000ul', 'g': '0xfffdfffffffffffeul'}[s]))
            args1.append(v); args2.append(v); ins.append((s, v))
        elif s == 'k':
            h.append('int %s = sx_concretize(sx_range("%s", 0, %s));' % (v, v, '127' if 'long' in name else '63')); args1.append(v); args2.append(v)
        else:
            ty, n = {'U': ('UINT64', 0), 'D': ('UINT128', 2), 'T': ('UINT192', 3), 'Q': ('UINT256', 4)}[s]
            h.append('%s %s1, %s2;' % (ty, v, v)); args1.append(v + '1'); args2.append(v + '2')
            chk += ['%s1.w[%d] == %s2.w[%d]' % (v, i, v, i) for i in range(n)] if n else ['%s1 == %s2' % (v, v)]
    if pre: h.append('sx_assume(%s);' % rename(pre, fp, args2))
    h.append('sx_opaque_mul(1);')
    if expr: h.append('sx_assert((ORIG_(%s)) == (CON_(%s)), "contract");' % (','.join(args1), ','.join(args2)))
    else:
        h.append('ORIG_(%s) CON_(%s)' % (','.join(args1), ','.join(args2)))
        h += ['sx_assert(%s, "contract");' % c for c in chk]
        # the first output may be the same object as a 128-bit operand
        if sig[0] == 'D' and 'd' in sig and not name.startswith('__mul'):
            i = sig.index('d'); v = 'abcde'[i]; a = list(args1); a[0] = v
            h.append('ORIG_(%s)' % ','.join(a)); h.append('sx_assert(%s.w[0] == a2.w[0] && %s.w[1] == a2.w[1], "contract with shared operand");' % (v, v))
    h.append('}')
    return '\n'.join(o + h) + '\n'

def prove(f, cache, sx, rt, clang, llvm):
    """-> (overlay text, [(name, proved)])"""
    text = open(f, errors='replace').read(); ds = definitions(text)
    if not ds: return text, []
    d = os.path.join(cache, 'lemma'); os.makedirs(d, exist_ok=True)
    sxh = hashlib.sha256(open(sx, 'rb').read()).hexdigest(); rtt = open(rt).read()
    def one(x):
        n, p, b, _ = x
        if len(p) != len(T[n][0]): return False
        try: c = lemma_c(n, p, b, ds)
        except Exception: return False
        h = hashlib.sha256((c + rtt + sxh).encode()).hexdigest()[:24]; base = os.path.join(d, h); res = base + '.res'
        if os.path.exists(res): return open(res).read() == 'ok'
        t = base + '.%d' % os.getpid()
        open(t + '.c', 'w').write(c); ok = False
        def sh(*a): return subprocess.run(a, capture_output=True, text=True).returncode == 0
        fl = ['-c', '-emit-llvm', '-O1', '-w', '-fno-vectorize', '-fno-slp-vectorize', '-fno-strict-aliasing', '-fwrapv']
        if sh(clang, *fl, t + '.c', '-o', t + '.h.bc') and sh(clang, *fl, rt, '-o', t + '.rt.bc') and sh(llvm + 'llvm-link', t + '.h.bc', t + '.rt.bc', '-o', t + '.bc'):
            sh(sx, t + '.bc', '-o', t + '.json', '-t', '40')
            try: r = json.load(open(t + '.json')); ok = r['status'] == 'ok' and not r['undecided'] and not r['violations'] and r['asserts'] > 0
            except Exception: ok = False
        for e in ('.c', '.h.bc', '.rt.bc', '.bc', '.json'):
            if os.path.exists(t + e): os.unlink(t + e)
        open(t + '.res', 'w').write('ok' if ok else 'no'); os.rename(t + '.res', res)
        return ok
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex: oks = list(ex.map(one, ds))
    out = []; pos = 0
    for (n, p, b, (s, e)), ok in zip(ds, oks):
        out.append(text[pos:s]); out.append(contract_define(n, p, b) + '\n' if ok else text[s:e]); pos = e
    out.append(text[pos:])
    return ''.join(out), [(n, ok) for (n, *_), ok in zip(ds, oks)]
