/* nextup nextdown nextafter nexttoward.  params: e, shape, op, yk (for nextafter/toward: 0 +inf, 1 -inf, 2 +max, 3 zero, 4 same value, 5 NaN, 6 -1), mode */
#include "bid.h"
extern DT FN(nextup)(DT), FN(nextdown)(DT), FN(nextafter)(DT, DT), FN(nexttoward)(DT, _Decimal128);
static void maxref(ref *r) { ref_zero(r); for (int i = 0; i < MAXU; i++) r->u[i] = 3 * i + 3 <= PREC ? 999 : 3 * i < PREC ? 9 : 0; r->e = QMAX; }
void harness(void) {
  int e = sx_param(0), op = sx_param(2), yk = sx_param(3), mode = sx_param(4), up, eq = 0; opd x; DT d = opnd(&x, "c", e, sx_param(1), -1), z;
  ref r = x.r; if (sx_param(1) == -4) ref_zero(&r); int zero = x.k == K_FIN && ref_iszero(&r);
  fe_dec_setround(mode); vh_errno_set(0);
  if (op < 2) { z = op ? FN(nextdown)(d) : FN(nextup)(d); up = !op; }
  else {
    ref yr; ref_zero(&yr); DT y; int ys = 0; yr.u[0] = yk == 6; 
    if (yk <= 1) y = mkinf(yk), ys = yk; else if (yk == 5) y = mknan(0, 0, 7); else if (yk == 2) { maxref(&yr); y = enc(0, QMAX, &yr); } else if (yk == 4) { y = d; ys = x.s; } else { ys = yk == 6; y = enc(ys, 0, &yr); }
    if (op == 2) z = FN(nextafter)(d, y);
    else z = FN(nexttoward)(d, 
#if W == 128
      y);
#else
      yk <= 1 ? vh_d128((u64)yk << 63 | 0x7800000000000000ul, 0) : yk == 5 ? vh_d128(0x7c00000000000000ul, 7) : yk == 2 ? vh_d128((u64)(QMAX + 6176) << 49, (u64)ref_val(&yr)) : yk == 4 ? (_Decimal128)y : vh_d128((u64)ys << 63 | (u64)6176 << 49, yk == 6));
#endif
    if (yk == 5 || x.k >= K_QNAN) { num n = dec(z); out("z", z); sx_assert(n.k == K_QNAN || n.k == K_SNAN, "NaN operands propagate"); return; }
    /* order of x and y */
    if (yk == 4 || (yk == 3 && zero) || (yk <= 1 && x.k == K_INF && x.s == yk)) eq = 1, up = 0;
    else if (yk == 0) up = 1; else if (yk == 1) up = 0;
    else if (x.k == K_INF) up = x.s;
    else if (yk == 3) up = x.s;
    else if (yk == 2) { if (x.s || zero) up = 1; else { ref t = r; if (QMAX - e > PREC) up = 1; else { ref m = yr; ref_shl(&m, QMAX - e); int c = ref_cmpmag(&t, &m); eq = c == 0; up = c < 0; } } }
    else { /* y = -1 */ if (!x.s || zero) up = 0; else { ref o; ref_zero(&o); o.u[0] = 1; ref t = r; if (e >= 0) { if (e < 80) ref_shl(&t, e); else { up = 1; goto done; } } else if (e > -80) ref_shl(&o, -e); else { up = 0; goto done; } int c = ref_cmpmag(&t, &o); eq = c == 0; up = c > 0; done:; } }
  }
  out("z", z); num n = dec(z);
  sx_assert(fe_dec_getround() == mode, "rounding mode unchanged");
  if (x.k >= K_QNAN) { sx_assert(n.k == K_QNAN || n.k == K_SNAN, "NaN stays NaN"); return; }
  if (eq) { sx_cover("equal"); if (x.k == K_INF) { sx_assert(n.k == K_INF && n.s == x.s, "equal operands: the infinity"); return; } if (zero) { sx_assert(n.k == K_FIN && n.c == 0, "equal operands: zero"); return; } r.s = x.s; r.e = e; assert_is(z, x.s, 0, &r, "equal operands: finite", "equal operands: sign", "equal operands: same value", 0); return; }
  if (x.k == K_INF) { if (up != x.s) { sx_assert(n.k == K_INF && n.s == x.s, "outward from an infinity stays"); return; } maxref(&r); assert_is(z, x.s, 0, &r, "inward from an infinity is finite", "inward from an infinity: sign", "inward from an infinity is the largest finite value", 0); return; }
  if (zero) { sx_cover("zero"); ref_zero(&r); r.u[0] = 1; r.e = QMIN; assert_is(z, !up, 0, &r, "next to zero is finite", "next to zero: sign", "next to zero is the smallest subnormal", 0); return; }
  { int nd = ref_ndig(&r), k = PREC - nd; if (k > e - QMIN) k = e - QMIN; ref_shl(&r, k); r.e = e - k; nd += k;
    if (up != x.s) { ref_inc(&r); if (ref_ndig(&r) > PREC) { if (r.e == QMAX) { sx_cover("overflow"); sx_assert(n.k == K_INF && n.s == x.s, "beyond the largest value is infinity"); return; } int h, i; ref_shr(&r, 1, &h, &i); r.e++; } sx_cover("away"); }
    else { /* toward zero */
      int one = 1; for (int i = 0; i < MAXU; i++) one &= r.u[i] == (i == (PREC - 1) / 3 ? p10((PREC - 1) % 3) : 0);
      if (r.e > QMIN && sx_split(one)) { for (int i = 0; i < MAXU; i++) r.u[i] = 3 * i + 3 <= PREC ? 999 : 3 * i < PREC ? 9 : 0; r.e--; }
      else for (int i = 0; i < MAXU; i++) { if (sx_split(r.u[i] == 0)) r.u[i] = 999; else { r.u[i]--; break; } }
      sx_cover("toward zero"); } 
    assert_is(z, x.s, 0, &r, "neighbour is finite", "neighbour keeps the sign", "adjacent value", 0); }
}
