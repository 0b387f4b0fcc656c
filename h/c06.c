/* lrint llrint lround llround.  params: e, shape, mode, op */
#include "bid.h"
extern long FN(lrint)(DT), FN(llrint)(DT), FN(lround)(DT), FN(llround)(DT);
void harness(void) {
  int e = sx_param(0), mode = sx_param(2), op = sx_param(3), big = 0; long y; opd x; DT d = opnd(&x, "c", e, sx_param(1), e < 0 && -e < PREC ? -e : -1);
  fe_dec_setround(mode); vh_errno_set(0); vh_fe_set(0);
  y = op == 0 ? FN(lrint)(d) : op == 1 ? FN(llrint)(d) : op == 2 ? FN(lround)(d) : FN(llround)(d);
  int er = vh_errno(), fe = vh_fe_get(); sx_out("y", y);
  sx_assert(fe_dec_getround() == mode, "rounding mode unchanged");
  if (x.k != K_FIN) { sx_assert(er == VH_EDOM && (fe & FE_INV), "NaN and infinity are domain errors"); return; }
  ref r = x.r; int m = op < 2 ? mode : RNA;
  if (sx_param(1) == -4) ref_zero(&r);
  else if (e < 0) ref_round(&r, -e, m);
  else if (e > 19) big = !ref_iszero(&r);
  else ref_shl(&r, e);
  if (!big && ref_ndig(&r) > 20) big = 1;
  if (!big) { u128 v = ref_val(&r); big = sx_split(v > ((u128)1 << 63) - (x.s ? 0 : 1)); 
    if (!big) { sx_cover("representable"); sx_assert(er == 0 && !(fe & FE_INV), "no error for a representable result"); sx_assert(y == (long)(x.s ? -(u64)v : (u64)v), "correctly rounded integer"); return; } }
  sx_cover("too large"); sx_assert(er == VH_EDOM, "domain error when it does not fit"); sx_assert(fe & FE_INV, "invalid raised when it does not fit");
}
