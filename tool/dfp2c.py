"""dfp2c: type-aware C-to-C lowering of libdfp translation units.

CBMC and clang have no decimal floating-point types, so every translation unit
is preprocessed with the flags of the real build, parsed, type-checked and
re-emitted with
  * _DecimalN                -> a struct holding the N/8 encoding bytes,
  * each decimal operator    -> the libbid entry point GCC itself would call
                                (__bid_addsd3, __bid_ltdd2, __bid_fixtdsi ...),
  * each decimal literal     -> its BID encoding,
and everything else unchanged.  Because the replacement type is a struct, a
decimal operation the translator failed to lower is a hard compile error of the
output (never a silent integer operation).
"""
import re, sys, copy
from pycparser import c_parser, c_ast as A, c_generator
from decimal import Decimal

FMT = {32: ('sd', 7, 101, 'unsigned int'), 64: ('dd', 16, 398, 'unsigned long'), 128: ('td', 34, 6176, None)}

# ---------------------------------------------------------------- literals
def bid_encode(n, sign, coeff, exp):
    """value -> BID bits, coefficient assumed representable after clamping"""
    p, bias = FMT[n][1], FMT[n][2]
    emax = {32: 191, 64: 767, 128: 12287}[n]
    e = exp + bias
    while e < 0 and coeff % 10 == 0 and coeff:
        coeff //= 10; e += 1
    while e > emax and coeff * 10 < 10 ** p and coeff:
        coeff *= 10; e -= 1
    if coeff == 0:
        e = max(0, min(emax, e))
    if e < 0 or e > emax:
        raise ValueError('literal out of range')
    if n == 32:
        if coeff < 1 << 23: return sign << 31 | e << 23 | coeff
        return sign << 31 | 3 << 29 | e << 21 | (coeff & 0x1fffff)
    if n == 64:
        if coeff < 1 << 53: return sign << 63 | e << 53 | coeff
        return sign << 63 | 3 << 61 | e << 51 | (coeff & ((1 << 51) - 1))
    return sign << 127 | e << 113 | coeff

def lit_bits(n, text):
    d = Decimal(text)          # exact
    s, digs, e = d.as_tuple()
    c = int(''.join(map(str, digs)))
    p = FMT[n][1]
    bias = FMT[n][2]
    # round to nearest even (precision, then subnormal range)
    drop = max(len(str(c)) - p, 0, -bias - e if c else 0)
    if drop > 0 and c:
        q, r = divmod(c, 10 ** drop)
        h = 10 ** drop
        if 2 * r > h or (2 * r == h and q & 1): q += 1
        c, e = q, e + drop
        if c == 10 ** p: c //= 10; e += 1
    return bid_encode(n, 0, c, e)

def bid_decode(n, b):
    s = b >> n - 1
    bias = FMT[n][2]
    if n == 128: c, e = b & (1 << 113) - 1, b >> 113 & 0x3fff
    else:
        k = 23 if n == 32 else 53
        if b >> n - 3 & 3 == 3: c, e = (b & (1 << k - 2) - 1) | 1 << k, b >> k - 2 & (0xff if n == 32 else 0x3ff)
        else: c, e = b & (1 << k) - 1, b >> k & (0xff if n == 32 else 0x3ff)
    return Decimal((s, tuple(map(int, str(c))), e - bias))

INF = {32: 0x78 << 24, 64: 0x78 << 56, 128: 0x78 << 120}
NAN = {32: 0x7c << 24, 64: 0x7c << 56, 128: 0x7c << 120}
SNAN = {32: 0x7e << 24, 64: 0x7e << 56, 128: 0x7e << 120}

# ---------------------------------------------------------------- lexical prepass
def strip_balanced(s, kw):
    """remove every  kw ( ... )  with balanced parentheses"""
    out = []
    i = 0
    rx = re.compile(r'\b(?:%s)\s*\(' % kw)
    while True:
        m = rx.search(s, i)
        if not m:
            out.append(s[i:]); break
        out.append(s[i:m.start()])
        d = 1; j = m.end()
        while d:
            ch = s[j]
            if ch == '"':
                j += 1
                while s[j] != '"':
                    j += 2 if s[j] == '\\' else 1
            elif ch == '(': d += 1
            elif ch == ')': d -= 1
            j += 1
        i = j
    return ''.join(out)

LITRX = re.compile(r'(?<![\w.])((?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)(DF|DD|DL|df|dd|dl)(?!\w)')
STRRX = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'')

def prepass(s):
    """gcc -E text -> (pycparser-parsable text, alias list)"""
    aliases = []
    for m in re.finditer(r'extern\s+__typeof\s*\(\s*(\w+)\s*\)\s*(\w+)\s*__attribute__\s*\(\(([^;]*?)alias\s*\(\s*"(\w+)"', s):
        aliases.append((m.group(2), m.group(4)))
    s = re.sub(r'typedef\s+(?:unsigned\s+)?int\s+(\w+)\s*__attribute__\s*\(\(\s*_*mode_*\s*\(\s*__libgcc_cmp_return__\s*\)\s*\)\)\s*;', r'typedef long \1;', s)
    if re.search(r'\b_*mode_*\s*\(\s*_*[SDTQH]I_*\s*\)\s*\)\)', s):
        raise NotImplementedError('mode attribute')
    def al(m):
        a, b = m.group(1), m.group(2)
        if a == b or b.startswith(('__GI_', '__EI_')): return ''
        return 'extern __typeof (%s) %s;' % (a, b)
    s = re.sub(r'extern\s+__typeof\s*\(\s*(\w+)\s*\)\s*(\w+)[^;]*?;', al, s)
    s = re.sub(r'\b(__typeof__|__typeof)\b', 'typeof', s)
    s = re.sub(r'\b(\w+)\s*__attribute__\s*\(\(\s*_*cleanup_*\s*\((\w+)\)\s*\)\)\s*(=|;)', r'\1 __VPCLEAN_\2 \3', s)
    s = re.sub(r'(\w+) __VPCLEAN_(\w+) ', r'__VPCL_\2__VPV_\1 ', s)
    for m in set(re.findall(r'__VPCL_\w+?__VPV_(\w+)', s)):
        k = re.search(r'__VPCL_\w+?__VPV_%s\b' % m, s)[0]
        if len(set(re.findall(r'__VPCL_\w+?__VPV_%s\b' % m, s))) > 1: raise NotImplementedError('cleanup')
        s = re.sub(r'(?<![\w.])%s\b' % m, k, s)
    s = strip_balanced(s, '__attribute__|__attribute')
    s = strip_balanced(s, '__asm__|__asm|asm')
    s = re.sub(r'\b(__extension__|__restrict|__restrict__|restrict|__thread|_Thread_local)\b', '', s)
    s = re.sub(r'\b__inline(__)?\b', 'inline', s)
    s = re.sub(r'\b__(volatile|const|signed)(__)?\b', r'\1', s)
    parts = []; last = 0
    def sub(t):
        t = re.sub(r'(?<![\w.])((?:\d+\.\d*|\.\d+)(?:[eE][+-]?\d+)?)[dD](?!\w)', r'\1', t)
        def lit(m):
            n = {'DF': 32, 'DD': 64, 'DL': 128}[m.group(2).upper()]
            return '__DLIT%d_%x' % (n, lit_bits(n, m.group(1)))
        t = LITRX.sub(lit, t)
        def bi(m):
            k, n = m.group(1), int(m.group(2))
            return '__DLIT%d_%x' % (n, (INF if k == 'inf' else SNAN if k == 'nans' else NAN)[n])
        t = re.sub(r'\b__builtin_(inf|nan|nans)d(32|64|128)\s*\(\s*(?:""\s*)?\)', bi, t)
        t = re.sub(r'\b_Decimal(32|64|128)\b', r'__D\1', t)
        return t
    s = re.sub(r'\b(__builtin_nans?d(?:32|64|128))\s*\(\s*""\s*\)', r'\1()', s)
    for m in STRRX.finditer(s):
        parts.append(sub(s[last:m.start()])); parts.append(m.group(0)); last = m.end()
    parts.append(sub(s[last:]))
    return ''.join(parts), aliases

PRELUDE = '''
typedef struct { unsigned int v; } __D32;
typedef struct { unsigned long v; } __D64;
typedef struct { unsigned long v[2]; } __D128;
typedef __builtin_va_list_stub __builtin_va_list;
'''
# names predefined for the parser only (real definitions printed by emit)
PARSE_PRELUDE = 'typedef int __D32; typedef int __D64; typedef int __D128; typedef int __builtin_va_list; typedef int _Float128; typedef int __float128; typedef int _Float64x; typedef int _Float32; typedef int _Float64; typedef int _Float32x; typedef int __VPEND;\n'

# ---------------------------------------------------------------- types
INT = ('int', 32, True); UINT = ('int', 32, False); LONG = ('int', 64, True); ULONG = ('int', 64, False)
CHAR = ('int', 8, True); VOID = ('void',); UNK = ('unk',)
def DEC(n): return ('dec', n)
FLT = {'float': ('flt', 'sf', 1), 'double': ('flt', 'df', 2), 'long double': ('flt', 'xf', 3)}

def isdec(t): return t[0] == 'dec'
def isint(t): return t[0] in ('int', 'bool')
def isarith(t): return t[0] in ('int', 'bool', 'flt', 'dec')
def promote(t):
    if t[0] == 'bool': return INT
    if t[0] == 'int' and t[1] < 32: return INT
    return t
def decay(t):
    if t[0] == 'arr': return ('ptr', t[1])
    if t[0] == 'fn': return ('ptr', t)
    return t
def usual(a, b):
    a, b = promote(decay(a)), promote(decay(b))
    if isdec(a) or isdec(b):
        return DEC(max(x[1] for x in (a, b) if isdec(x)))
    if a[0] == 'flt' or b[0] == 'flt':
        return max((x for x in (a, b) if x[0] == 'flt'), key=lambda x: x[2])
    if a[0] == 'int' and b[0] == 'int':
        if a[1] != b[1]: return a if a[1] > b[1] else b
        return ('int', a[1], a[2] and b[2])
    if a[0] == 'ptr': return a
    if b[0] == 'ptr': return b
    return UNK

def const_int_value(n):
    if isinstance(n, A.Constant) and 'int' in n.type:
        return int(n.value.rstrip('uUlL'), 0) if not re.match(r'^0[0-7]+$', n.value.rstrip('uUlL')) else int(n.value.rstrip('uUlL'), 8)
    raise ValueError

def fold_int(n):
    """value of an integer constant expression; raises ValueError when it is not one"""
    if isinstance(n, A.Constant): return const_int_value(n)
    if isinstance(n, A.UnaryOp) and n.op in '+-':
        v = fold_int(n.expr); return -v if n.op == '-' else v
    if isinstance(n, A.BinaryOp) and n.op in ('+', '-', '*'):
        a, b = fold_int(n.left), fold_int(n.right)
        return a + b if n.op == '+' else a - b if n.op == '-' else a * b
    raise ValueError

def round_int(v, p):
    """(coefficient, exponent) of |v| rounded half-even to p digits, as GCC folds constants"""
    v = abs(v); e = 0; k = max(0, len(str(v)) - p)
    if not k: return v, 0
    q, r = divmod(v, 10 ** k); h = 10 ** k // 2
    if r > h or (r == h and q & 1): q += 1
    if q == 10 ** p: q //= 10; k += 1
    return q, k

class Lower:
    def __init__(self, name):
        self.name = name
        self.scopes = [{}]      # name -> ('typedef'|'obj', type)
        self.tags = [{}]        # tag  -> type
        self.fields = {}        # su id -> dict name->type
        self.defs = []          # function definitions
        self.calls = {}
        self.cur = None
        self.used_intrinsics = set()
        self.uid = 0
        for n in (32, 64, 128): self.scopes[0]['__D%d' % n] = ('typedef', DEC(n))
        self.scopes[0]['__builtin_va_list'] = ('typedef', ('va',))
        for k in ('_Float128', '__float128'): self.scopes[0][k] = ('typedef', ('flt', 'tf', 4))
        self.scopes[0]['_Float64x'] = ('typedef', ('flt', 'xf', 3))
        for k in ('_Float64', '_Float32x'): self.scopes[0][k] = ('typedef', ('flt', 'df', 2))
        self.scopes[0]['_Float32'] = ('typedef', ('flt', 'sf', 1))

    # -- scopes
    def push(self): self.scopes.append({}); self.tags.append({})
    def pop(self): self.scopes.pop(); self.tags.pop()
    def lookup(self, n):
        for s in reversed(self.scopes):
            if n in s: return s[n]
        return None
    def tag(self, n):
        for s in reversed(self.tags):
            if n in s: return s[n]
        return None

    # -- declarations -> types
    def base(self, n):
        """type of an IdentifierType / Struct / Enum node"""
        if isinstance(n, A.IdentifierType):
            names = n.names
            if len(names) == 1:
                e = self.lookup(names[0])
                if e and e[0] == 'typedef': return e[1]
            s = [x for x in names]
            if 'void' in s: return VOID
            if '_Bool' in s: return ('bool',)
            u = 'unsigned' in s
            if '__int128' in s or '__int128_t' in s: return ('int', 128, not u)
            if '__uint128_t' in s: return ('int', 128, False)
            if 'char' in s: return ('int', 8, not u)
            if 'short' in s: return ('int', 16, not u)
            if 'float' in s: return FLT['float']
            if 'double' in s: return FLT['long double'] if 'long' in s else FLT['double']
            if 'long' in s: return ('int', 64, not u)
            if 'int' in s or u or 'signed' in s: return ('int', 32, not u)
            raise NotImplementedError('type %s' % names)
        if isinstance(n, (A.Struct, A.Union)):
            if n.name:
                t = self.tag(n.name) if n.decls is None else self.tags[-1].get(n.name)
                if t is None:
                    self.uid += 1
                    t = ('su', self.uid)
                    self.tags[-1][n.name] = t
            else:
                if not hasattr(self, '_anon'): self._anon = {}
                t = self._anon.get(id(n))
                if t is None:
                    self.uid += 1
                    t = ('su', self.uid)
                    self._anon[id(n)] = t
                    self._keep = getattr(self, '_keep', []); self._keep.append(n)
            if n.decls is not None and t[1] not in self.fields:
                f = self.fields[t[1]] = {}
                order = []
                for d in n.decls:
                    if not isinstance(d, A.Decl): continue
                    dt = self.typ(d.type)
                    if d.name: f[d.name] = dt; order.append((d.name, dt))
                    elif dt[0] == 'su':
                        f.update({k: v for k, v in self.fields.get(dt[1], {}).items() if k != '#order'})
                        order.append((None, dt))
                f['#order'] = order
            return t
        if isinstance(n, A.Enum):
            if n.values:
                for e in n.values.enumerators: self.scopes[-1][e.name] = ('obj', INT)
            return UINT
        if isinstance(n, A.TypeOf):
            if isinstance(n.expr, A.Typename): return self.typ(n.expr.type)
            return self.expr(copy.deepcopy(n.expr))[1]
        raise NotImplementedError('base %s' % type(n))

    def typ(self, n):
        if isinstance(n, A.TypeDecl): return self.typ(n.type)
        if isinstance(n, A.Typename): return self.typ(n.type)
        if isinstance(n, A.PtrDecl): return ('ptr', self.typ(n.type))
        if isinstance(n, A.ArrayDecl):
            if n.dim is not None: n.dim = self.expr(n.dim)[0]
            return ('arr', self.typ(n.type))
        if isinstance(n, A.FuncDecl):
            ret = self.typ(n.type)
            ps = []; var = False; proto = n.args is not None
            if n.args:
                for p in n.args.params:
                    if isinstance(p, A.EllipsisParam): var = True
                    elif isinstance(p, A.ID): ps.append(INT)
                    else: ps.append(decay(self.typ(p.type)))
            if ps == [VOID]: ps = []
            return ('fn', ret, tuple(ps), var or not proto)
        return self.base(n)

    def ref(self, f):
        self.calls.setdefault(self.cur or '#data', set()).add(f)

    # -- helpers building nodes
    def call(self, f, *args):
        self.used_intrinsics.add(f)
        self.ref(f)
        return A.FuncCall(A.ID(f), A.ExprList(list(args)))
    def zero(self): return A.Constant('int', '0')

    def conv(self, node, t, to):
        """convert expression node of type t to type `to`"""
        t = decay(t); to = decay(to)
        if t == to or not (isdec(t) or isdec(to)): return node
        if to[0] == 'void': return node
        if isdec(t) and isdec(to):
            a, b = t[1], to[1]
            na, nb = FMT[a][0], FMT[b][0]
            if a < b: return self.call('__bid_extend%s%s2' % (na, nb), node)
            return self.call('__bid_trunc%s%s2' % (na, nb), node)
        if isdec(to):
            s = FMT[to[1]][0]
            if isint(t):
                t2 = promote(t)
                try:
                    v = fold_int(node); n = t2[1]
                    if -(1 << n - 1) <= v < 1 << (n - 1 if t2[2] else n):
                        c, e = round_int(v, FMT[to[1]][1]); return self.lit(to[1], bid_encode(to[1], int(v < 0), c, e))
                except ValueError: pass
                k = {32: 'si', 64: 'di', 128: 'ti'}[t2[1]]
                # GCC widens a narrower unsigned type without changing its signedness
                uns = not t2[2] or (t[0] == 'int' and t[1] < 32 and not t[2])
                return self.call('__bid_float%s%s%s' % ('uns' if uns else '', k, s), node)
            if t[0] == 'flt':
                c = node
                while isinstance(c, A.UnaryOp) and c.op in '-+': c = c.expr
                if isinstance(c, A.Constant) and re.match(r'^0*\.?0*$', c.value):
                    neg = isinstance(node, A.UnaryOp) and node.op == '-'
                    return self.lit(to[1], bid_encode(to[1], int(neg), 0, 0))
                if isinstance(c, A.Constant) and re.match(r'^[0-9]*\.?[0-9]*(e[+-]?[0-9]+)?[flFL]?$', c.value):      # a literal: folded as GCC does
                    from fractions import Fraction
                    v = Fraction(c.value.rstrip('flFL')); m = v.numerator; q = v.denominator
                    if q & (q - 1) == 0 and m.bit_length() <= 24:
                        k = q.bit_length() - 1; co, ex = m * 5 ** k, -k
                        while co % 10 == 0: co //= 10; ex += 1
                        if co < 10: co *= 10; ex -= 1
                        if co < 10 ** FMT[to[1]][1]:
                            neg = isinstance(node, A.UnaryOp) and node.op == '-'
                            return self.lit(to[1], bid_encode(to[1], int(neg), co, ex))
                wide = {32: 32, 64: 64, 128: 128}[to[1]]
                sz = {'sf': 32, 'df': 64, 'xf': 80, 'tf': 128}[t[1]]
                return self.call('__bid_%s%s%s' % ('extend' if sz <= wide else 'trunc', t[1], s), node)
            raise NotImplementedError('convert %s to decimal' % (t,))
        s = FMT[t[1]][0]
        if to[0] == 'bool': return self.cmp('!=', node, t)
        if isint(to):
            w = max(32, to[1])
            k = {32: 'si', 64: 'di', 128: 'ti'}[w]
            r = self.call('__bid_fix%s%s%s' % ('' if to[2] else 'uns', s, k), node)
            return r
        if to[0] == 'flt':
            sz = {'sf': 32, 'df': 64, 'xf': 80, 'tf': 128}[to[1]]
            return self.call('__bid_%s%s%s' % ('extend' if sz >= t[1] else 'trunc', s, to[1]), node)
        raise NotImplementedError('convert decimal to %s' % (to,))

    def lit(self, n, bits):
        if n == 128:
            init = A.InitList([A.InitList([A.Constant('int', '0x%xUL' % (bits & (2**64 - 1))), A.Constant('int', '0x%xUL' % (bits >> 64))])])
        else:
            init = A.InitList([A.Constant('int', '0x%x%s' % (bits, 'U' if n == 32 else 'UL'))])
        return A.ID('((__D%d)%s)' % (n, c_generator.CGenerator().visit(init) if n == 128 else '{0x%x%s}' % (bits, 'U' if n == 32 else 'UL'))) if n != 128 else \
            A.ID('((__D128){{0x%xUL, 0x%xUL}})' % (bits & (2**64 - 1), bits >> 64))

    def cmp(self, op, node, t, node2=None):
        if node2 is None: node2 = self.lit(t[1], bid_encode(t[1], 0, 0, 0))
        f = {'<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge', '==': 'eq', '!=': 'ne'}[op]
        return A.BinaryOp(op, self.call('__bid_%s%s2' % (f, FMT[t[1]][0]), node, node2), self.zero())

    LRX = re.compile(r'^\(\(__D(\d+)\)\{+(0x[0-9a-f]+)U?L?(?:, (0x[0-9a-f]+)UL)?\}+\)$')
    def litval(self, n):
        m = self.LRX.match(n.name) if isinstance(n, A.ID) else None
        if not m: return None
        return bid_decode(int(m[1]), int(m[2], 16) | (int(m[3], 16) << 64 if m[3] else 0))

    def arith(self, op, l, r, t):
        if len(self.scopes) == 1:       # file-scope constant expression
            a, b = self.litval(l), self.litval(r)
            if a is not None and b is not None:
                import decimal
                c = decimal.Context(prec=FMT[t[1]][1], Emin=-6143 if t[1] == 128 else -383 if t[1] == 64 else -95,
                                    Emax=6144 if t[1] == 128 else 384 if t[1] == 64 else 96, rounding=decimal.ROUND_HALF_EVEN)
                v = {'+': c.add, '-': c.subtract, '*': c.multiply, '/': c.divide}[op](a, b)
                s, dg, e = v.as_tuple()
                return self.lit(t[1], bid_encode(t[1], s, int(''.join(map(str, dg))), e))
        f = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op]
        return self.call('__bid_%s%s3' % (f, FMT[t[1]][0]), l, r)

    def cond(self, node):
        n, t = self.expr(node)
        return self.cmp('!=', n, t) if isdec(t) else n

    # -- expressions: returns (node, type)
    def expr(self, n):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None: raise NotImplementedError('expr %s at %s' % (type(n).__name__, n.coord))
        return m(n)

    def x_Constant(self, n):
        t = n.type
        if t == 'char' or t.endswith('char'):
            return n, INT
        if t == 'string' or 'string' in t:
            if n.value.startswith('L'): return n, ('arr', INT)
            return n, ('arr', CHAR)
        if 'float' in t or 'double' in t:
            v = n.value.lower()
            if v.startswith('0x'): v2 = v.rstrip('fl') if 'p' in v else v
            return n, FLT['float'] if v.endswith('f') and not v.startswith('0x') else FLT['long double'] if v.endswith('l') else FLT['double']
        v = n.value
        suf = re.search(r'[uUlL]*$', v).group(0).lower()
        val = const_int_value(n)
        dec = not v.startswith('0')
        u = 'u' in suf; l = 'l' in suf
        for w, sg in ((32, True), (32, False), (64, True), (64, False)):
            if w == 32 and l: continue
            if sg and u: continue
            if not sg and dec and not u: continue
            if val < 1 << (w - (1 if sg else 0)): return n, ('int', w, sg)
        return n, ULONG

    def x_ID(self, n):
        m = re.match(r'__DLIT(32|64|128)_([0-9a-f]+)$', n.name)
        if m:
            k = int(m.group(1)); return self.lit(k, int(m.group(2), 16)), DEC(k)
        e = self.lookup(n.name)
        if e is None or (e is self.scopes[0].get(n.name) and e[0] == 'obj'): self.ref(n.name)
        if e is None:
            return n, UNK
        return n, e[1]

    def x_ExprList(self, n):
        t = VOID
        for i, e in enumerate(n.exprs): n.exprs[i], t = self.expr(e)
        return n, t

    def x_ArrayRef(self, n):
        n.name, t = self.expr(n.name)
        n.subscript, t2 = self.expr(n.subscript)
        t = decay(t)
        if t[0] != 'ptr': t = decay(t2)
        return n, t[1] if t[0] == 'ptr' else UNK

    def x_StructRef(self, n):
        n.name, t = self.expr(n.name)
        t = decay(t)
        if n.type == '->': t = t[1] if t[0] == 'ptr' else UNK
        if t[0] == 'su' and t[1] in self.fields:
            f = self.fields[t[1]]
            if n.field.name not in f: raise NotImplementedError('field %s at %s' % (n.field.name, n.coord))
            return n, f[n.field.name]
        raise NotImplementedError('member %s of %s at %s' % (n.field.name, t, n.coord))

    BUILTIN_RET = {'__builtin_expect': LONG, '__builtin_clz': INT, '__builtin_clzl': INT, '__builtin_clzll': INT,
                   '__builtin_ctz': INT, '__builtin_ctzl': INT, '__builtin_ctzll': INT, '__builtin_constant_p': INT,
                   '__builtin_popcount': INT, '__builtin_bswap32': UINT, '__builtin_bswap64': ULONG, '__builtin_bswap16': ('int', 16, False),
                   '__builtin_memcpy': ('ptr', VOID), '__builtin_memset': ('ptr', VOID), '__builtin_strlen': ULONG,
                   '__builtin_abs': INT, '__builtin_labs': LONG, '__builtin_unreachable': VOID, '__builtin_va_start': VOID, '__builtin_va_end': VOID, '__builtin_va_copy': VOID,
                   '__builtin_types_compatible_p': INT, '__builtin_offsetof': ULONG, '__builtin_inf': FLT['double'], '__builtin_inff': FLT['float'],
                   '__builtin_nan': FLT['double'], '__builtin_nanf': FLT['float'], '__builtin_infl': FLT['long double'], '__builtin_isunordered': INT,
                   '__builtin_isnan': INT, '__builtin_signbit': INT, '__builtin_signbitf': INT, '__builtin_signbitl': INT, '__builtin_free': VOID,
                   '__builtin_frexp': FLT['double'], '__builtin_frexpf': FLT['float'], '__builtin_fpclassify': INT, '__builtin_isfinite': INT, '__builtin_isinf_sign': INT}

    def x_FuncCall(self, n):
        args = n.args.exprs if n.args else []
        if isinstance(n.name, A.ID):
            f = n.name.name
            if f in ('__builtin_va_arg', '__builtin_offsetof', 'offsetof'):
                if f == '__builtin_va_arg':
                    args[0], _ = self.expr(args[0])
                    return n, self.typ(args[1])
                self.typ(args[0])
                return n, ULONG
            m = re.match(r'__builtin_(fabs|copysign|signbit|isnan|isinf|isfinite)d(32|64|128)$', f)
            if m: raise NotImplementedError(f)
            if self.lookup(f) is None: self.ref(f)
            if f in ('__builtin_isnan', '__builtin_isinf', '__builtin_signbit', '__builtin_isfinite') and len(args) == 1:
                a, t = self.expr(args[0])
                if isdec(t):
                    if f == '__builtin_isnan': u = '__bid_unord%s2' % FMT[t[1]][0]; self.used_intrinsics.add(u); self.ref(u)
                    return self.call('__vp_%s_d%d' % (f[10:], t[1]), a), INT
                args[0] = a
                return n, INT
            if f == '__builtin_isunordered' and len(args) == 2:
                (a, ta), (b, tb) = self.expr(args[0]), self.expr(args[1])
                if isdec(ta) or isdec(tb):
                    t = usual(ta, tb)
                    c = self.call('__bid_unord%s2' % FMT[t[1]][0], self.conv(a, ta, t), self.conv(b, tb, t))
                    return A.BinaryOp('!=', c, self.zero()), INT
                args[0], args[1] = a, b
                return n, INT
            if f in self.BUILTIN_RET and self.lookup(f) is None:
                for i, a in enumerate(args):
                    args[i], t = self.expr(a)
                    if isdec(t): raise NotImplementedError('%s on decimal' % f)
                return n, self.BUILTIN_RET[f]
        fn, t = self.expr(n.name)
        n.name = fn
        t = decay(t)
        if t[0] == 'ptr': t = t[1]
        if t[0] != 'fn':
            for i, a in enumerate(args): args[i], _ = self.expr(a)
            return n, INT
        for i, a in enumerate(args):
            e, ta = self.expr(a)
            args[i] = self.conv(e, ta, t[2][i]) if i < len(t[2]) else e
        return n, t[1]

    def x_UnaryOp(self, n):
        op = n.op
        if op in ('sizeof', '_Alignof', '__alignof__'):
            if isinstance(n.expr, A.Typename): self.typ(n.expr.type)
            else: n.expr, _ = self.expr(n.expr)
            return n, ULONG
        if op == '!':
            e, t = self.expr(n.expr)
            if isdec(t): return self.cmp('==', e, t), INT
            n.expr = e; return n, INT
        if op == '&':
            n.expr, t = self.expr(n.expr); return n, ('ptr', t)
        if op == '*':
            n.expr, t = self.expr(n.expr)
            t = decay(t)
            if t[0] == 'ptr' and t[1][0] == 'fn': return n, t[1]
            return n, t[1] if t[0] == 'ptr' else UNK
        e, t = self.expr(n.expr)
        if isdec(t):
            if op == '-' and isinstance(n.expr, A.ID) and n.expr.name.startswith('__DLIT'):
                return self.lit(t[1], int(n.expr.name.split('_')[-1], 16) ^ 1 << t[1] - 1), t
            if op == '-': return self.call('__vp_neg_d%d' % t[1], e), t
            if op == '+': return e, t
            if op in ('++', '--', 'p++', 'p--'):
                one = self.lit(t[1], bid_encode(t[1], 0, 1, 0))
                return self.rmw(e, t, lambda v: self.arith('+' if '+' in op else '-', v, one, t), post=op[0] == 'p'), t
            raise NotImplementedError('unary %s on decimal' % op)
        n.expr = e
        if op in ('-', '+', '~'): return n, promote(decay(t))
        return n, t

    def rmw(self, lv, t, f, post=False):
        """GNU statement expression  ({ T *p = &lv; T o = *p; *p = f(o); result })"""
        self.uid += 1
        p, o = '__vp_p%d' % self.uid, '__vp_o%d' % self.uid
        g = c_generator.CGenerator()
        T = '__D%d' % t[1]
        body = '({ %s *%s = &(%s); %s %s = *%s; *%s = %s; %s; })' % (T, p, g.visit(lv), T, o, p, p, g.visit(f(A.ID(o))), o if post else '*' + p)
        return A.ID(body)

    def x_BinaryOp(self, n):
        op = n.op
        if op in ('&&', '||'):
            n.left = self.cond(n.left); n.right = self.cond(n.right)
            return n, INT
        l, tl = self.expr(n.left); r, tr = self.expr(n.right)
        if isdec(tl) or isdec(tr):
            if not (isarith(decay(tl)) and isarith(decay(tr))): raise NotImplementedError('decimal mixed with %s/%s at %s' % (tl, tr, n.coord))
            t = usual(tl, tr)
            l, r = self.conv(l, tl, t), self.conv(r, tr, t)
            if op in ('+', '-', '*', '/'): return self.arith(op, l, r, t), t
            if op in ('<', '>', '<=', '>=', '==', '!='): return self.cmp(op, l, t, r), INT
            raise NotImplementedError('decimal %s' % op)
        n.left, n.right = l, r
        if op in ('<', '>', '<=', '>=', '==', '!='): return n, INT
        if op in ('<<', '>>'): return n, promote(decay(tl))
        if op == '-' and decay(tl)[0] == 'ptr' and decay(tr)[0] == 'ptr': return n, LONG
        return n, usual(tl, tr)

    def x_Assignment(self, n):
        l, tl = self.expr(n.lvalue); r, tr = self.expr(n.rvalue)
        if n.op == '=':
            n.lvalue, n.rvalue = l, self.conv(r, tr, tl)
            return n, tl
        if isdec(tl) or isdec(tr):
            op = n.op[:-1]
            t = usual(tl, tr)
            r = self.conv(r, tr, t)
            if isdec(tl):
                return self.rmw(l, tl, lambda v: self.conv(self.arith(op, self.conv(v, tl, t), r, t), t, tl)), tl
            # integer lvalue op= decimal
            if isinstance(l, A.ID):
                return A.Assignment('=', l, self.conv(self.arith(op, self.conv(l, tl, t), r, t), t, tl)), tl
            raise NotImplementedError('compound decimal assignment')
        n.lvalue, n.rvalue = l, r
        return n, tl

    def x_TernaryOp(self, n):
        n.cond = self.cond(n.cond)
        a, ta = self.expr(n.iftrue); b, tb = self.expr(n.iffalse)
        if isdec(ta) or isdec(tb):
            t = usual(ta, tb)
            n.iftrue, n.iffalse = self.conv(a, ta, t), self.conv(b, tb, t)
            return n, t
        n.iftrue, n.iffalse = a, b
        da, db = decay(ta), decay(tb)
        if isarith(da) and isarith(db): return n, usual(da, db)
        if da[0] == 'ptr' and da[1] == VOID and db[0] == 'ptr': return n, db
        return n, db if da[0] in ('int', 'unk') else da

    def x_Cast(self, n):
        t = self.typ(n.to_type.type)
        e, te = self.expr(n.expr)
        if isdec(t) or isdec(te):
            if t[0] == 'void': n.expr = e; return n, t
            c = self.conv(e, te, t)
            if isdec(t): return c, t
            n.expr = c
            return n, t
        n.expr = e
        return n, t

    def x_CompoundLiteral(self, n):
        t = self.typ(n.type.type)
        n.init = self.init(n.init, t)
        return n, t

    def x_Compound(self, n):      # statement expression
        self.push()
        t = VOID
        items = n.block_items or []
        out = []
        for i, b in enumerate(items):
            if i == len(items) - 1 and not isinstance(b, A.Decl) and hasattr(self, 'x_' + type(b).__name__) and not isinstance(b, A.Compound):
                e, t = self.expr(b); out.append(e)
            else: out.append(self.stmt(b))
        n.block_items = out
        self.pop()
        return A.ID('(' + c_generator.CGenerator().visit(n) + ')'), t

    def x_GenericSelection(self, n): raise NotImplementedError('_Generic')
    def x_Typename(self, n): return n, self.typ(n.type)

    # -- initialisers
    def init(self, i, t):
        if isinstance(i, A.InitList):
            exprs = i.exprs or []
            if isdec(t) or (t[0] in ('int', 'ptr', 'flt', 'bool') and len(exprs) == 1):
                return self.init(exprs[0], t) if isdec(t) else A.InitList([self.init(exprs[0], t)])
            has_dec = self.contains_dec(t)
            pos = 0
            order = self.fields.get(t[1], {}).get('#order', []) if t[0] == 'su' else None
            for k, e in enumerate(exprs):
                if isinstance(e, A.NamedInitializer):
                    ft = t
                    for nm in e.name:
                        if isinstance(nm, A.ID) and ft[0] == 'su':
                            if ft == t:
                                pos = [x for x, _ in order].index(nm.name) if nm.name in [x for x, _ in order] else pos
                            ft = self.fields[ft[1]].get(nm.name, UNK)
                        elif ft[0] == 'arr': ft = ft[1]
                    e.expr = self.init(e.expr, ft); pos += 1
                    continue
                if t[0] == 'arr': ft = t[1]
                elif order: ft = order[min(pos, len(order) - 1)][1]
                else: ft = UNK
                pos += 1
                if has_dec and ft[0] in ('arr', 'su') and not isinstance(e, A.InitList):
                    # brace elision: leaf type search
                    ft = self.leaf(ft)
                exprs[k] = self.init(e, ft)
            return i
        e, te = self.expr(i)
        if t[0] in ('arr', 'su') and not isdec(te): return e
        return self.conv(e, te, t) if isarith(decay(t)) else e

    def leaf(self, t):
        if t[0] == 'arr': return self.leaf(t[1])
        if t[0] == 'su':
            o = self.fields.get(t[1], {}).get('#order', [])
            return self.leaf(o[0][1]) if o else UNK
        return t

    def contains_dec(self, t):
        if isdec(t): return True
        if t[0] == 'arr': return self.contains_dec(t[1])
        if t[0] == 'su': return any(self.contains_dec(x) for _, x in self.fields.get(t[1], {}).get('#order', []))
        return False

    # -- statements
    def stmt(self, s):
        if s is None: return None
        k = type(s).__name__
        if k in ('Decl', 'Typedef'): return self.decl(s)
        if k == 'DeclList':
            s.decls = [self.decl(d) for d in s.decls]; return s
        if k == 'Compound':
            self.push()
            s.block_items = [self.stmt(b) for b in (s.block_items or [])]
            self.pop()
            return s
        if k == 'If':
            s.cond = self.cond(s.cond); s.iftrue = self.stmt(s.iftrue); s.iffalse = self.stmt(s.iffalse); return s
        if k in ('While', 'DoWhile'):
            s.cond = self.cond(s.cond); s.stmt = self.stmt(s.stmt); return s
        if k == 'For':
            self.push()
            if s.init is not None: s.init = self.stmt(s.init)
            if s.cond is not None: s.cond = self.cond(s.cond)
            if s.next is not None: s.next = self.expr(s.next)[0]
            s.stmt = self.stmt(s.stmt)
            self.pop()
            return s
        if k == 'Return':
            if s.expr is not None:
                e, t = self.expr(s.expr)
                s.expr = self.conv(e, t, self.ret)
            return s
        if k == 'Switch':
            s.cond = self.expr(s.cond)[0]; s.stmt = self.stmt(s.stmt); return s
        if k in ('Case', 'Default'):
            if k == 'Case': s.expr = self.expr(s.expr)[0]
            s.stmts = [self.stmt(x) for x in (s.stmts or [])]; return s
        if k == 'Label':
            s.stmt = self.stmt(s.stmt); return s
        if k in ('Break', 'Continue', 'EmptyStatement', 'Goto', 'Pragma', 'StaticAssert'): return s
        return self.expr(s)[0]

    def decl(self, d):
        if isinstance(d, A.StaticAssert) or isinstance(d, A.Pragma): return d
        t = self.typ(d.type)
        if isinstance(d, A.Typedef):
            self.scopes[-1][d.name] = ('typedef', t); return d
        if d.bitsize is not None: d.bitsize = self.expr(d.bitsize)[0]
        if d.name: self.scopes[-1][d.name] = ('obj', t)
        if getattr(d, 'init', None) is not None:
            d.init = self.init(d.init, t)
        return d

    def unit(self, ast):
        for ext in ast.ext:
            if isinstance(ext, A.FuncDef):
                if ext.param_decls: raise NotImplementedError('K&R')
                d = ext.decl
                t = self.typ(d.type)
                self.scopes[-1][d.name] = ('obj', t)
                self.cur = d.name; self.calls.setdefault(d.name, set())
                self.defs.append((d.name, 'static' in (d.storage or []) or 'inline' in (d.funcspec or [])))
                self.ret = t[1]
                self.push()
                if d.type.args:
                    for p in d.type.args.params:
                        if isinstance(p, (A.Decl,)) and p.name: self.scopes[-1][p.name] = ('obj', decay(self.typ(p.type)))
                self.scopes[-1]['__func__'] = ('obj', ('arr', CHAR))
                self.scopes[-1]['__FUNCTION__'] = ('obj', ('arr', CHAR))
                ext.body = self.stmt(ext.body)
                self.pop()
                self.cur = None
            elif isinstance(ext, (A.Decl, A.Typedef)):
                self.decl(ext)
        return ast

# ---------------------------------------------------------------- output
OUT_PRELUDE = '''typedef struct { unsigned int v; } __D32;
typedef struct { unsigned long v; } __D64;
typedef struct { unsigned long v[2]; } __D128;
static inline __D32 __vp_neg_d32(__D32 x) { x.v ^= 0x80000000U; return x; }
static inline __D64 __vp_neg_d64(__D64 x) { x.v ^= 0x8000000000000000UL; return x; }
static inline __D128 __vp_neg_d128(__D128 x) { x.v[1] ^= 0x8000000000000000UL; return x; }
'''

def intrinsic_protos(used, known=()):
    ty = {'sd': '__D32', 'dd': '__D64', 'td': '__D128', 'si': 'int', 'di': 'long', 'ti': '__int128', 'sf': 'float', 'df': 'double', 'xf': 'long double', 'tf': '_Float128'}
    out = []
    for f in sorted(used):
        if f in known: continue
        m = re.match(r'__bid_(add|sub|mul|div)(sd|dd|td)3$', f)
        if m: out.append('%s %s(%s, %s);' % (ty[m[2]], f, ty[m[2]], ty[m[2]])); continue
        m = re.match(r'__bid_(lt|le|gt|ge|eq|ne|unord)(sd|dd|td)2$', f)
        if m: out.append('long %s(%s, %s);' % (f, ty[m[2]], ty[m[2]])); continue
        m = re.match(r'__bid_(extend|trunc)(sd|dd|td|sf|df|xf|tf)(sd|dd|td|sf|df|xf|tf)2?$', f)
        if m: out.append('%s %s(%s);' % (ty[m[3]], f, ty[m[2]])); continue
        m = re.match(r'__bid_fix(uns)?(sd|dd|td)(si|di|ti)$', f)
        if m: out.append('%s%s %s(%s);' % ('unsigned ' if m[1] else '', ty[m[3]], f, ty[m[2]])); continue
        m = re.match(r'__bid_float(uns)?(si|di|ti)(sd|dd|td)$', f)
        if m: out.append('%s %s(%s%s);' % (ty[m[3]], f, 'unsigned ' if m[1] else '', ty[m[2]])); continue
        m = re.match(r'__vp_(isnan|isinf|signbit|isfinite)_d(32|64|128)$', f)
        if m and m[1] == 'isnan': out.append('static inline int %s(__D%s x) { return __bid_unord%s2(x, x) != 0; }' % (f, m[2], FMT[int(m[2])][0])); continue
        if m: out.append('int %s(__D%s);' % (f, m[2])); continue
        if f.startswith('__vp_neg'): continue
        raise NotImplementedError('intrinsic ' + f)
    return '\n'.join(out) + '\n'

class Gen(c_generator.CGenerator):
    pass

def prune(ast, low):
    """drop unused extern function prototypes/inline libc functions to keep the output small"""
    keep = []
    used = set()
    class V(A.NodeVisitor):
        def visit_ID(s, n):
            for w in re.findall(r'[A-Za-z_]\w*', n.name): used.add(w)
    for ext in ast.ext:
        V().visit(ext.body if isinstance(ext, A.FuncDef) else ext)
    for ext in ast.ext:
        if isinstance(ext, A.Decl) and isinstance(ext.type, A.FuncDecl) and ext.name not in used and ext.name not in dict(low.defs):
            continue
        keep.append(ext)
    ast.ext = keep
    return ast

def translate(text, name):
    src, aliases = prepass(text)
    ast = c_parser.CParser(dialect='c23').parse(PARSE_PRELUDE + src, name)
    # discard our parse-only typedefs (everything up to the sentinel)
    i = 0
    while not (isinstance(ast.ext[i], A.Typedef) and ast.ext[i].name == '__VPEND'): i += 1
    ast.ext = ast.ext[i + 1:]
    low = Lower(name)
    low.unit(ast)
    fd = {e.decl.name: e for e in ast.ext if isinstance(e, A.FuncDef)}
    prune(ast, low)
    body = re.sub(r'\b__VPCL_(\w+?)__VPV_(\w+)( =|;)', r'__VPCL_\1__VPV_\2 __attribute__((cleanup(\1)))\3', Gen().visit(ast)) if '__VPCL_' in src else Gen().visit(ast)
    out = OUT_PRELUDE + intrinsic_protos(low.used_intrinsics, low.scopes[0]) + body
    g = Gen()
    for pub, target in aliases:
        if target in fd and pub != target:
            d = copy.deepcopy(fd[target].decl)
            class R(A.NodeVisitor):
                def visit_TypeDecl(s, n):
                    if n.declname == target: n.declname = pub
            R().visit(d.type)
            d.name = pub; d.storage = []; d.init = None
            t = low.typ(copy.deepcopy(d.type)) if False else None
            args = []
            if d.type.args:
                for k, p in enumerate(d.type.args.params):
                    nm = getattr(p, 'name', None)
                    if nm: args.append(nm)
            proto = g.visit(d)
            isvoid = isinstance(d.type.type, A.TypeDecl) and isinstance(d.type.type.type, A.IdentifierType) and d.type.type.type.names == ['void']
            out += '\n%s { %s%s(%s); }\n' % (proto, '' if isvoid else 'return ', target, ', '.join(args))
            low.defs.append((pub, False)); low.calls[pub] = {target}
    at = r'__attribute__\s*\(\(\s*_*constructor_*\s*(?:\(\s*\d+\s*\)\s*)?\)\)'
    for f in sorted(set(re.findall(at + r'\s*(?:static\s+|void\s+)*(\w+)\s*\(', text) + re.findall(r'(\w+)\s*\(\s*(?:void)?\s*\)\s*' + at, text))):
        if f in fd: out += '\nstatic void __attribute__((constructor)) __vpctor_%s(void) { %s(); }\n' % (f, f)
    return out, low, aliases

if __name__ == '__main__':
    t, low, al = translate(open(sys.argv[1]).read(), sys.argv[1])
    open(sys.argv[2], 'w').write(t)
