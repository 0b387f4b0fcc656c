/* quantize.  params: e1, shape1, e2, shape2, mode */
#include "bid.h"
extern DT FN(quantize)(DT, DT);
void harness(void) {
  int e = sx_param(0), f = sx_param(2), mode = sx_param(4); opd x, y; DT a = opnd(&x, "a", e, sx_param(1), f > e && f - e < PREC ? f - e : -1), b = opnd(&y, "b", f, sx_param(3), -1);
  fe_dec_setround(mode);
  DT z = FN(quantize)(a, b); out("z", z); num n = dec(z);
  sx_assert(fe_dec_getround() == mode, "rounding mode unchanged");
  int nan = 0;
  if (x.k >= K_QNAN || y.k >= K_QNAN) nan = 1;
  else if (x.k == K_INF || y.k == K_INF) { if (x.k == y.k) { sx_assert(n.k == K_INF && n.s == x.s, "two infinities give the infinity of x"); return; } nan = 1; }
  ref r = x.r;
  if (!nan) {
    if (sx_param(1) == -4) ref_zero(&r), r.s = x.s;
    if (f > e) ref_round(&r, f - e, mode);
    else if (e - f > PREC) nan = !ref_iszero(&r);
    else ref_shl(&r, e - f);
    if (!nan && ref_ndig(&r) > PREC) nan = 1;
  }
  if (nan) { sx_cover("nan"); sx_assert(n.k == K_QNAN || n.k == K_SNAN, "NaN when undefined or too long"); return; }
  r.e = f; sx_cover("quantized"); assert_is(z, x.s, 0, &r, "finite result", "sign kept", "nearest coefficient", "exponent of y");
}
