/* Independent reference for the BID interchange formats, written over base-1000
   digit groups so that every step is linear.  W = 32, 64 or 128. */
#include "vh.h"
#ifndef W
#define W 32
#endif
#define PA_(a,b) a##b
#define PA(a,b) PA_(a,b)
#define PC_(a,b,c) a##b##c
#define PC(a,b,c) PC_(a,b,c)
#define FN(x) PC(x,d,W)
#define DT PA(_Decimal, W)
#if W == 32
# define PREC 7
# define BIAS 101
# define QMAX 90
# define NU 3
#elif W == 64
# define PREC 16
# define BIAS 398
# define QMAX 369
# define NU 6
#else
# define PREC 34
# define BIAS 6176
# define QMAX 6111
# define NU 12
#endif
#define QMIN (-BIAS)
#define EMAX (QMAX + PREC - 1)
#define EMIN (QMIN + PREC - 1)
#define MAXU 40
/* rounding modes as <fenv.h> numbers them */
#define RNE 0
#define RTZ 1
#define RUP 2
#define RDN 3
#define RNA 4
/* value = (-1)^s * sum u[i]*1000^i * 10^e ; n groups are significant, the rest are 0 */
typedef struct { int s, e; u32 u[MAXU]; } ref;
static struct { const ref *r; unsigned char has[MAXU]; u32 d[MAXU][3]; } digs[4];   /* single digits some groups are made of */
static int ndigs;
enum { K_FIN, K_INF, K_QNAN, K_SNAN };
typedef struct { int k, s, e; u128 c; } num;     /* decoded datum */

static u32 p10(int k) { return k == 0 ? 1 : k == 1 ? 10 : k == 2 ? 100 : 1000; }
static void ref_zero(ref *r) { r->s = 0; r->e = 0; for (int i = 0; i < MAXU; i++) r->u[i] = 0; }
/* coefficient of at most nd digits (exact: exactly nd); the groups that hold decimal positions
   cut-1 and cut are built from single digits so that splitting there stays structural */
static void ref_symx(ref *r, const char *n0, int nd, int exact, int cut) {
  char nm[8]; int i, j, b = n0[1] ? 2 : 1, g = ndigs++ & 3; ref_zero(r);
  digs[g].r = r; for (i = 0; i < MAXU; i++) digs[g].has[i] = 0;
  nm[0] = n0[0]; nm[1] = n0[1];
  for (i = 0; 3 * i < nd; i++) {
    int k = nd - 3 * i > 3 ? 3 : nd - 3 * i, top = nd - 3 * i <= 3;
    nm[b] = 'a' + i; nm[b + 1] = 0;
    if (cut > 0 && ((cut % 3 && cut / 3 == i) || (cut - 1) / 3 == i)) {
      u32 v = 0; digs[g].has[i] = k;
      for (j = 0; j < k; j++) { nm[b + 1] = '0' + j; nm[b + 2] = 0; v += p10(j) * (digs[g].d[i][j] = sx_range(nm, exact && top && j == k - 1, 9)); }
      r->u[i] = v;
    } else r->u[i] = sx_range(nm, exact && top ? p10(k - 1) : 0, p10(k) - 1);
  }
}
/* windows: constant digits except for chosen groups.  shape = ((pat*64 + nd)*16 + g1)*16 + g2; group 15 = none, pat 15 = all groups free.
   pat: 0 zeros  1 nines  2 1000..  3 1234567890123..  4 5000..  5 4999..  6 2^53.. 7 100..001  8 8388607.. 9 777..
   19 20..  20 250..  21 80..  22 30..  23 50..01  10 2^63  11 2^64  12 2^31  13 2^32  14 2^127  16 2^128  17 (2^63-1).5  18 (2^63-1).4999.. */
static int pat_digit(int pat, int nd, int j) {   /* digit j (0 = least significant) of the pattern */
  static const char *const q[] = { 0, 0, 0, "1234567890123456789012345678901234567890123456789", 0, 0, "9007199254740992345678901234567890", 0, "8388608123456789012345678901234567", 0,
    "9223372036854775808000000000000000000000", "18446744073709551616000000000000000000", "2147483648000000000000000000000000000000", "4294967296000000000000000000000000000000", "170141183460469231731687303715884105728", 0,
    "340282366920938463463374607431768211456", "922337203685477580750000000000000000000", "9223372036854775807499999999999999999999" };
  int t = nd - 1 - j;
  switch (pat) {
  case 1: return 9;
  case 2: return t == 0;
  case 3: case 6: case 8: case 10: case 11: case 12: case 13: case 14: case 16: case 17: case 18: return q[pat][t] - '0';
  case 4: return t == 0 ? 5 : 0;
  case 5: return t == 0 ? 4 : 9;
  case 7: return t == 0 || j == 0;
  case 19: return t == 0 ? 2 : 0;
  case 20: return t == 0 ? 2 : t == 1 ? 5 : 0;
  case 21: return t == 0 ? 8 : 0;
  case 22: return t == 0 ? 3 : 0;
  case 23: return t == 0 ? 5 : j == 0;
  case 9: return 7;
  default: return 0;
  }
}
static void ref_win(ref *r, const char *n0, long shape, int cut) {
  int g2 = shape & 15, g1 = shape >> 4 & 15, nd = shape >> 8 & 63, pat = shape >> 14 & 31, i, j;
  char nm[8]; int b = n0[1] ? 2 : 1, g = ndigs++ & 3;
  if (pat == 15) { ref_symx(r, n0, nd, 0, cut); return; }
  sx_tabulate(1);
  ref_zero(r); nm[0] = n0[0]; nm[1] = n0[1];
  digs[g].r = r; for (i = 0; i < MAXU; i++) digs[g].has[i] = 0;
  for (i = 0; 3 * i < nd; i++) {
    int k = nd - 3 * i > 3 ? 3 : nd - 3 * i; nm[b] = 'a' + i; nm[b + 1] = 0;
    if (i == g1 || i == g2) {
      r->u[i] = sx_range(nm, 0, p10(k) - 1);
    } else { u32 v = 0; for (j = k - 1; j >= 0; j--) v = v * 10 + pat_digit(pat, nd, 3 * i + j); r->u[i] = v; }
  }
}
static void ref_sym(ref *r, const char *n0, int nd) { ref_symx(r, n0, nd, 0, -1); }
static void ref_sym_n(ref *r, const char *n0, int nd) { ref_symx(r, n0, nd, 1, -1); }
static void ref_const(ref *r, u128 c) { ref_zero(r); for (int i = 0; c; i++) { r->u[i] = c % 1000; c /= 1000; } }
static u128 ref_val(const ref *r) { u128 v = 0; for (int i = 12; i >= 0; i--) v = v * 1000 + r->u[i]; return v; }
static int ref_iszero(const ref *r) { int z = 1; for (int i = 0; i < MAXU; i++) z &= r->u[i] == 0; return sx_split(z); }
static int ref_ndig(const ref *r) {
  for (int i = MAXU - 1; i >= 0; i--)
    if (sx_split(r->u[i] != 0)) return 3 * i + (sx_split(r->u[i] >= 100) ? 3 : sx_split(r->u[i] >= 10) ? 2 : 1);
  return 0;
}
/* a<b, =, > over concrete n groups, splitting group by group */
static int ref_cmpmag(const ref *a, const ref *b) {
  for (int i = MAXU - 1; i >= 0; i--) { if (sx_split(a->u[i] < b->u[i])) return -1; if (sx_split(a->u[i] > b->u[i])) return 1; }
  return 0;
}
static void ref_shl(ref *r, int k) {         /* multiply the coefficient by 10^k, e unchanged */
  int q = k / 3, m = k % 3; u32 lo = p10(3 - m), hi = p10(m); ref t;
  for (int i = MAXU - 1; i >= 0; i--) {
    u32 a = i - q >= 0 ? r->u[i - q] : 0, b = i - q - 1 >= 0 ? r->u[i - q - 1] : 0;
    t.u[i] = m ? (a % lo) * hi + b / lo : a;
  }
  for (int i = 0; i < MAXU; i++) r->u[i] = t.u[i];
}
/* drop k digits; *half = comparison of the discarded part with one half (-1,0,1), *inex = discarded part nonzero */
static void ref_shr(ref *r, int k, int *half, int *inex) {
  int q = k / 3, m = k % 3; u32 hi = p10(3 - m), lo = p10(m); u32 d, rest = 0;
  if (k <= 0) { *half = -1; *inex = 0; return; }
  if (q >= MAXU) { int z = ref_iszero(r); for (int i = 0; i < MAXU; i++) r->u[i] = 0; *half = -1; *inex = !z; return; }
  if (m) { u32 t = r->u[q] % lo; d = t / p10(m - 1); rest = t % p10(m - 1); for (int i = 0; i < q; i++) rest |= r->u[i]; }
  else { d = r->u[q - 1] / 100; rest = r->u[q - 1] % 100; for (int i = 0; i < q - 1; i++) rest |= r->u[i]; }
  if (sx_split(d >= 5)) { if (sx_split(d > 5)) *half = 1, *inex = 1; else { *half = sx_split(rest != 0) ? 1 : 0; *inex = 1; } }
  else { *half = -1; *inex = sx_split(d != 0) ? 1 : sx_split(rest != 0); }
  for (int i = 0; i < MAXU; i++) {
    u32 a = i + q < MAXU ? r->u[i + q] : 0, b = i + q + 1 < MAXU ? r->u[i + q + 1] : 0;
    r->u[i] = m ? a / lo + (b % lo) * hi : a;
  }
}
static void ref_inc(ref *r) {
  for (int i = 0; i < MAXU; i++) { if (sx_split(r->u[i] == 999)) r->u[i] = 0; else { r->u[i]++; return; } }
}
/* round away? */
static int ref_up(const ref *r, int mode, int s, int half, int inex) {
  if (!inex) return 0;
  switch (mode) {
  case RTZ: return 0;
  case RUP: return !s;
  case RDN: return s;
  case RNA: return half >= 0;
  default: return half > 0 || (half == 0 && sx_split(r->u[0] & 1));
  }
}
/* drop k digits and round in `mode` */
static int ref_round(ref *r, int k, int mode) {
  int half, inex; ref_shr(r, k, &half, &inex);
  r->e += k > 0 ? k : 0;
  if (ref_up(r, mode, r->s, half, inex)) ref_inc(r);
  return inex;
}

/* ---- encodings ---- */
static int lt_units(const ref *r, const u32 *b, int n) {   /* coefficient < constant, by groups */
  int g; for (g = 0; g < 4; g++) if (digs[g].r == r) break;
  for (int i = n - 1; i >= 0; i--) {
    if (g < 4 && digs[g].has[i])     /* digit by digit: keeps the range of every digit exact on each path */
      for (int j = digs[g].has[i] - 1; j >= 0; j--) { u32 x = b[i] / p10(j) % 10, v = digs[g].d[i][j]; if (sx_split(v < x)) return 1; if (sx_split(v > x)) return 0; }
    else { if (sx_split(r->u[i] < b[i])) return 1; if (sx_split(r->u[i] > b[i])) return 0; }
  }
  return 0;
}
static DT enc(int s, int e, const ref *r) {
#if W == 32
  static const u32 lim[3] = { 608, 388, 8 }; u32 c = ref_val(r), h = (u32)s << 31, b = e + BIAS;
  if (lt_units(r, lim, 3)) return vh_d32(h | b << 23 | c);
  return vh_d32(h | 3u << 29 | b << 21 | (c - 0x800000));
#elif W == 64
  static const u32 lim[6] = { 992, 740, 254, 199, 7, 9 }; u64 c = ref_val(r), h = (u64)s << 63, b = e + BIAS;
  if (lt_units(r, lim, 6)) return vh_d64(h | b << 53 | c);
  return vh_d64(h | 3ul << 61 | b << 51 | (c - (1ul << 53)));
#else
  u128 c = ref_val(r); u64 b = e + BIAS;
  return vh_d128((u64)s << 63 | b << 49 | (u64)(c >> 64), (u64)c);
#endif
}
static num dec(DT d) {
  num x; x.e = 0; x.c = 0;
#if W == 32
  u32 b = vh_b32(d); x.s = sx_split(b >> 31);
  if (sx_split((b >> 25 & 0x3f) == 0x3f)) { x.k = K_SNAN; return x; }
  if (sx_split((b >> 26 & 0x1f) == 0x1f)) { x.k = K_QNAN; return x; }
  if (sx_split((b >> 27 & 0xf) == 0xf)) { x.k = K_INF; return x; }
  x.k = K_FIN;
  if (sx_split((b >> 29 & 3) == 3)) { x.e = (int)(b >> 21 & 0xff) - BIAS; u32 c = (b & 0x1fffff) | 0x800000; if (sx_split(c > 9999999)) c = 0; x.c = c; }
  else { x.e = (int)(b >> 23 & 0xff) - BIAS; x.c = b & 0x7fffff; }
#elif W == 64
  u64 b = vh_b64(d); x.s = sx_split(b >> 63);
  if (sx_split((b >> 57 & 0x3f) == 0x3f)) { x.k = K_SNAN; return x; }
  if (sx_split((b >> 58 & 0x1f) == 0x1f)) { x.k = K_QNAN; return x; }
  if (sx_split((b >> 59 & 0xf) == 0xf)) { x.k = K_INF; return x; }
  x.k = K_FIN;
  if (sx_split((b >> 61 & 3) == 3)) { x.e = (int)(b >> 51 & 0x3ff) - BIAS; u64 c = (b & ((1ul << 51) - 1)) | 1ul << 53; if (sx_split(c > 9999999999999999ul)) c = 0; x.c = c; }
  else { x.e = (int)(b >> 53 & 0x3ff) - BIAS; x.c = b & ((1ul << 53) - 1); }
#else
  u64 h = vh_hi128(d), l = vh_lo128(d); x.s = sx_split(h >> 63);
  if (sx_split((h >> 57 & 0x3f) == 0x3f)) { x.k = K_SNAN; return x; }
  if (sx_split((h >> 58 & 0x1f) == 0x1f)) { x.k = K_QNAN; return x; }
  if (sx_split((h >> 59 & 0xf) == 0xf)) { x.k = K_INF; return x; }
  x.k = K_FIN;
  if (sx_split((h >> 61 & 3) == 3)) { x.e = (int)(h >> 47 & 0x3fff) - BIAS; }
  else { u128 c = (u128)(h & ((1ul << 49) - 1)) << 64 | l; x.e = (int)(h >> 49 & 0x3fff) - BIAS; if (sx_split(c >= (u128)0x1ed09bead87c0ul << 64 && c > (((u128)0x1ed09bead87c0ul << 64) | 0x378d8e63fffffffful))) c = 0; x.c = c; }
#endif
  return x;
}
static void out(const char *n, DT d) {
#if W == 32
  sx_out(n, vh_b32(d));
#elif W == 64
  sx_out(n, vh_b64(d));
#else
  sx_out(n, vh_hi128(d)); sx_out(n, vh_lo128(d));
#endif
}
static int eqbits(DT a, DT b) {
#if W == 32
  return vh_b32(a) == vh_b32(b);
#elif W == 64
  return vh_b64(a) == vh_b64(b);
#else
  return (vh_hi128(a) == vh_hi128(b)) & (vh_lo128(a) == vh_lo128(b));
#endif
}
static DT mkinf(int s) {
#if W == 32
  return vh_d32((u32)s << 31 | 0x78000000u);
#elif W == 64
  return vh_d64((u64)s << 63 | 0x7800000000000000ul);
#else
  return vh_d128((u64)s << 63 | 0x7800000000000000ul, 0);
#endif
}
static DT mknan(int s, int sig, u64 pay) {
#if W == 32
  return vh_d32((u32)s << 31 | 0x7c000000u | (u32)sig << 25 | (u32)pay);
#elif W == 64
  return vh_d64((u64)s << 63 | 0x7c00000000000000ul | (u64)sig << 57 | pay);
#else
  return vh_d128((u64)s << 63 | 0x7c00000000000000ul | (u64)sig << 57, pay);
#endif
}

/* ---- what IEEE 754 delivers for an exact result ---- */
#define FL_INEX 1
#define FL_OVER 2
#define FL_UNDER 4
/* `r` is exact (nonzero or zero) with preferred exponent r->e; on return r holds the delivered
   finite result, or *inf is set.  Returns the flags.  Sticky digits below the groups are not supported. */
static int ref_deliver(ref *r, int mode, int *inf) {
  int fl = 0, nd = ref_ndig(r), k, tiny;
  *inf = 0;
  if (nd == 0) { if (r->e < QMIN) r->e = QMIN; if (r->e > QMAX) r->e = QMAX; return 0; }
  tiny = nd + r->e - 1 < EMIN;
  k = nd - PREC; if (k < QMIN - r->e) k = QMIN - r->e; if (k < 0) k = 0;
  if (k > 0) {
    if (ref_round(r, k, mode)) { fl |= FL_INEX; if (tiny) fl |= FL_UNDER; }
    if (ref_ndig(r) > PREC) { int h, x; ref_shr(r, 1, &h, &x); r->e++; }
  }
  if (r->e > QMAX) {
    nd = ref_ndig(r);
    if (r->e - QMAX + nd <= PREC) { ref_shl(r, r->e - QMAX); r->e = QMAX; }
    else {
      fl |= FL_INEX | FL_OVER;
      if (mode == RNE || mode == RNA || (mode == RUP && !r->s) || (mode == RDN && r->s)) *inf = 1;
      else { for (int i = 0; i < MAXU; i++) r->u[i] = 3 * i + 3 <= PREC ? 999 : 3 * i < PREC ? 9 : 0; r->e = QMAX; }
    }
  }
  return fl;
}
static void assert_is(DT y, int s, int inf, const ref *r, const char *mk, const char *ms, const char *mv, const char *me) {
  num z = dec(y);
  if (inf) { sx_assert(z.k == K_INF, mk); if (z.k == K_INF) sx_assert(z.s == s, ms); return; }
  sx_assert(z.k == K_FIN, mk); if (z.k != K_FIN) return;
  sx_assert(z.s == s, ms);
  if (me) { sx_assert(z.e == r->e, me); sx_assert(z.c == ref_val(r), mv); return; }
  if (sx_split(z.e == r->e)) { sx_assert(z.c == ref_val(r), mv); return; }
  { /* another member of the cohort: compare values */
    ref a = *r; int ze = sx_concretize(z.e);
    if (ze < a.e && a.e - ze < 60) { ref_shl(&a, a.e - ze); sx_assert(z.c == ref_val(&a), mv); }
    else if (ze > a.e && ze - a.e <= 36) { u128 m = z.c; for (int i = 0; i < ze - a.e; i++) m *= 10; sx_assert(m == ref_val(&a), mv); }
    else sx_assert(z.c == 0 && ref_iszero(r), mv);
  }
}
extern int fe_dec_setround(int); extern int fe_dec_getround(void);

/* ---- operands described by (exponent, shape) ----
   shape >= 0: finite, see ref_win; -1 infinity (any trailing bits), -2 quiet NaN, -3 signaling NaN (any payload; 64, 128: payload 123..ppp),
   -12, -13 NaNs with payload 7, -1000-window a quiet NaN with that payload, -4 non-canonical finite encoding (coefficient out of range; its value is zero), -5 zero */
typedef struct { int k, s; ref r; u64 pay; } opd;
static DT opnd(opd *o, const char *n, int e, long shape, int cut) {
  char sn[4] = { n[0], n[0] == 's' ? '_' : 's', 0, 0 }, pn[4] = { n[0], 'p', 0, 0 }, qn[4] = { n[0], 'q', 0, 0 };
  int s = o->s = sx_split(sx_range(sn, 0, 1)); o->k = K_FIN; o->pay = 0;
  if (shape >= 0) { ref_win(&o->r, n, shape, cut); o->r.s = s; o->r.e = e; return enc(s, e, &o->r); }
  if (shape <= -1000) {   /* quiet NaN, payload a window */
    ref_win(&o->r, n, -1000 - shape, cut); o->k = K_QNAN; u128 v = ref_val(&o->r); o->pay = v;
#if W == 128
    return vh_d128((u64)s << 63 | 0x7c00000000000000ul | (u64)(v >> 64), (u64)v);
#else
    return mknan(s, 0, (u64)v);
#endif
  }
  ref_zero(&o->r); o->r.s = s; o->r.e = e;
  if (shape == -5) return enc(s, e, &o->r);
  if (shape == -4) {
#if W == 32
    u32 c = sx_range(pn, 10000000 - 0x800000, 0x1fffff); return vh_d32((u32)s << 31 | 3u << 29 | (u32)(e + BIAS) << 21 | c);
#elif W == 64
    u64 c = sx_range(pn, 10000000000000000ul - (1ul << 53), (1ul << 51) - 1); return vh_d64((u64)s << 63 | 3ul << 61 | (u64)(e + BIAS) << 51 | c);
#else
    if (e & 1) { u64 h = sx_range(pn, 0x1ed09bead87c1ul, 0x1fffffffffffful), l = sx_range(qn, 0, ~0ul); return vh_d128((u64)s << 63 | (u64)(e + BIAS) << 49 | h, l); }
    u64 h = sx_range(pn, 0, (1ul << 47) - 1), l = sx_range(qn, 0, ~0ul); return vh_d128((u64)s << 63 | 3ul << 61 | (u64)(e + BIAS) << 47 | h, l);
#endif
  }
  int fp = shape <= -12; if (fp) shape += 10;   /* fixed payload */
#if W != 32
  if (!fp && shape != -1) {   /* payload 123..ppp: its digits are recoded one by one in the decNumber based functions */
    ref_win(&o->r, n, ((3 * 64 + (W == 64 ? 15 : 18)) * 16 + 0) * 16 + 15, -1); o->pay = (u64)ref_val(&o->r); o->k = shape == -2 ? K_QNAN : K_SNAN;
# if W == 64
    return mknan(s, shape == -3, o->pay);
# else
    return vh_d128((u64)s << 63 | 0x7c00000000000000ul | (u64)(shape == -3) << 57, o->pay);
# endif
  }
#endif
  o->k = shape == -1 ? K_INF : shape == -2 ? K_QNAN : K_SNAN;
#if W == 32
  { u32 p = fp ? 7 : sx_range(pn, 0, shape == -1 ? 0x1ffffff : 999999); o->pay = p; return vh_d32((u32)s << 31 | 0x78000000u | (shape == -1 ? 0 : 0x4000000u) | (shape == -3 ? 0x2000000u : 0) | p); }
#elif W == 64
  { u64 p = fp ? 7 : sx_range(pn, 0, shape == -1 ? 0x1fffffffffffffful : 999999999999999ul); o->pay = p; return vh_d64((u64)s << 63 | 0x7800000000000000ul | (shape == -1 ? 0 : 0x400000000000000ul) | (shape == -3 ? 0x200000000000000ul : 0) | p); }
#else
  { u64 h = shape == -1 ? sx_range(pn, 0, 0x1fffffffffffffful) : 0, l = fp ? 7 : sx_range(qn, 0, ~0ul); o->pay = l; return vh_d128((u64)s << 63 | 0x7800000000000000ul | (shape == -1 ? 0 : 0x400000000000000ul) | (shape == -3 ? 0x200000000000000ul : 0) | h, l); }
#endif
}
