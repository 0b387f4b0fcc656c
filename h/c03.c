/* comparison operators and quiet comparison functions.  params: e1, shape1, e2, shape2 (shape2 <= -20: x's own coefficient times 10^(-20-shape2), a cohort member) */
#include "bid.h"
extern int FN(isgreater)(DT, DT), FN(isgreaterequal)(DT, DT), FN(isless)(DT, DT), FN(islessequal)(DT, DT), FN(islessgreater)(DT, DT), FN(isunordered)(DT, DT);
static int cmp_ops(DT a, DT b) { return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5; }
void harness(void) {
  int e = sx_param(0), f = sx_param(2), c; long sh = sx_param(3); opd x, y; DT a = opnd(&x, "a", e, sx_param(1), -1), b;
  if (sh <= -20) { y = x; y.s = sx_split(sx_range("bs", 0, 1)); ref_shl(&y.r, -20 - sh); y.r.s = y.s; y.r.e = f = e - (-20 - sh); if (ref_ndig(&y.r) > PREC) return; b = enc(y.s, f, &y.r); }
  else b = opnd(&y, "b", f, sh, -1);
  if (sx_param(1) == -4) ref_zero(&x.r); if (sh == -4) ref_zero(&y.r);
  vh_fe_set(0);
  int q = FN(isgreater)(a, b) << 4 | FN(isgreaterequal)(a, b) << 5 | FN(isless)(a, b) << 2 | FN(islessequal)(a, b) << 3 | FN(islessgreater)(a, b) << 1 | FN(isunordered)(a, b);
  int fe = vh_fe_get();
  int o = cmp_ops(a, b);
  sx_out("quiet", q); sx_out("ops", o);
  if (x.k >= K_QNAN || y.k >= K_QNAN) { sx_cover("unordered"); sx_assert(o == 2, "operators with a NaN: only != holds"); sx_assert(q == 1, "quiet functions with a NaN: only isunordered holds");
    if (x.k != K_SNAN && y.k != K_SNAN) sx_assert(!(fe & FE_INV), "quiet functions raise nothing on quiet NaNs"); return; }
  /* order of the values */
  int xz = x.k == K_FIN && ref_iszero(&x.r), yz = y.k == K_FIN && ref_iszero(&y.r), sx = xz ? 0 : x.s ? -1 : 1, sy = yz ? 0 : y.s ? -1 : 1;
  if (sx != sy) c = sx < sy ? -1 : 1;
  else if (sx == 0) c = 0;
  else {
    if (x.k == K_INF) c = y.k == K_INF ? 0 : 1;
    else if (y.k == K_INF) c = -1;
    else if (e - f > 80) c = 1; else if (f - e > 80) c = -1;
    else { ref p = x.r, r = y.r; if (e > f) ref_shl(&p, e - f); else ref_shl(&r, f - e); c = ref_cmpmag(&p, &r); }
    if (sx < 0) c = -c;
  }
  if (c < 0) sx_cover("less"); else if (c > 0) sx_cover("greater"); else sx_cover("equal");
  sx_assert(o == (c == 0 ? 1 | 8 | 32 : c < 0 ? 2 | 4 | 8 : 2 | 16 | 32), "comparison operators agree with the values");
  sx_assert(q == (c == 0 ? 8 | 32 : c < 0 ? 2 | 4 | 8 : 2 | 16 | 32), "quiet comparison functions agree with the values");
  sx_assert(!(fe & FE_INV), "quiet functions raise nothing");
}
