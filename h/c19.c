/* conversion from width SRC to width W.  params: e, shape, mode */
#include "bid.h"
#if SRC == 32
typedef _Decimal32 ST; enum { SBIAS = 101 };
#elif SRC == 64
typedef _Decimal64 ST; enum { SBIAS = 398 };
#else
typedef _Decimal128 ST; enum { SBIAS = 6176 };
#endif
static ST senc(int s, int e, const ref *r) {
#if SRC == 32
  static const u32 lim[3] = { 608, 388, 8 }; u32 c = ref_val(r), h = (u32)s << 31, b = e + SBIAS;
  if (lt_units(r, lim, 3)) return vh_d32(h | b << 23 | c);
  return vh_d32(h | 3u << 29 | b << 21 | (c - 0x800000));
#elif SRC == 64
  static const u32 lim[6] = { 992, 740, 254, 199, 7, 9 }; u64 c = ref_val(r), h = (u64)s << 63, b = e + SBIAS;
  if (lt_units(r, lim, 6)) return vh_d64(h | b << 53 | c);
  return vh_d64(h | 3ul << 61 | b << 51 | (c - (1ul << 53)));
#else
  u128 c = ref_val(r); u64 b = e + SBIAS;
  return vh_d128((u64)s << 63 | b << 49 | (u64)(c >> 64), (u64)c);
#endif
}
static ST sspec(int s, int kind, u64 lo, u64 hi) {    /* kind 0 inf, 1 quiet, 2 signaling */
#if SRC == 32
  return vh_d32((u32)s << 31 | 0x78000000u | (kind ? 0x4000000u : 0) | (kind == 2 ? 0x2000000u : 0) | (u32)lo);
#elif SRC == 64
  return vh_d64((u64)s << 63 | 0x7800000000000000ul | (kind ? 0x400000000000000ul : 0) | (kind == 2 ? 0x200000000000000ul : 0) | lo);
#else
  return vh_d128((u64)s << 63 | 0x7800000000000000ul | (kind ? 0x400000000000000ul : 0) | (kind == 2 ? 0x200000000000000ul : 0) | hi, lo);
#endif
}
static int same_src(ST a, ST b) {
#if SRC == 32
  return vh_b32(a) == vh_b32(b);
#elif SRC == 64
  return vh_b64(a) == vh_b64(b);
#else
  return (vh_hi128(a) == vh_hi128(b)) & (vh_lo128(a) == vh_lo128(b));
#endif
}
__attribute__((noinline)) ST back(DT y) { return (ST)y; }   /* GCC folds a direct narrowing of a widening */
void harness(void) {
  int e = sx_param(0), mode = sx_param(2), inf = 0; long shape = sx_param(1); ST x; ref r; int kind = -1, s; u64 lo = 0;
  s = sx_split(sx_range("s", 0, 1)); ref_zero(&r);
  if (shape >= 0) { ref_win(&r, "c", shape, -1); r.s = s; r.e = e; x = senc(s, e, &r); }
  else if (shape == -4) {
    r.s = s; r.e = e; 
#if SRC == 32
    x = vh_d32((u32)s << 31 | 3u << 29 | (u32)(e + SBIAS) << 21 | (u32)sx_range("p", 10000000 - 0x800000, 0x1fffff));
#elif SRC == 64
    x = vh_d64((u64)s << 63 | 3ul << 61 | (u64)(e + SBIAS) << 51 | sx_range("p", 10000000000000000ul - (1ul << 53), (1ul << 51) - 1));
#else
    x = vh_d128((u64)s << 63 | (u64)(e + SBIAS) << 49 | sx_range("p", 0x1ed09bead87c1ul, 0x1fffffffffffful), sx_range("q", 0, ~0ul));
#endif
  } else {
    kind = shape == -1 ? 0 : shape == -2 ? 1 : 2;
    sx_tabulate(1); lo = kind ? sx_range("p", 0, 999) : 0; for (int i = 0; i < e; i++) lo *= 10;   /* payload p * 10^e */
    if (kind && SRC > 32 && e < 12) lo += 7000000000000ul; if (kind && e >= 3) lo += 123;
    x = sspec(s, kind, lo, 0);
  }
  fe_dec_setround(mode); vh_errno_set(0); vh_fe_set(0);
  DT y = (DT)x; out("y", y);
  sx_assert(fe_dec_getround() == mode, "rounding mode unchanged");
  if (kind > 0) { num z = dec(y); sx_cover("NaN"); sx_assert(z.k == K_QNAN || z.k == K_SNAN, "a NaN stays a NaN"); sx_assert(z.s == s, "sign of the NaN"); }
  else if (kind == 0) { num z = dec(y); sx_assert(z.k == K_INF && z.s == s, "infinity is kept"); }
  else {
    int fl = ref_deliver(&r, mode, &inf);
    sx_cover(fl ? "rounded" : "exact");
    assert_is(y, s, inf, &r, "kind", "sign", "value", "exponent");
  }
#if SRC < W
  if (shape != -4) { ST b = back(y); if (kind == 2) sx_assert(same_src(b, sspec(s, 1, lo, 0)), "narrowing the widened NaN gives its payload back"); else sx_assert(same_src(x, b), "narrowing the widened value gives it back"); }
#endif
}
