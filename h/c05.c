/* rounding to an integral value.  params: exponent, mode, shape.  -DOP=ceil|floor|... -DKIND: fixed mode or -1 = current */
#include "bid.h"
extern DT FN(OP)(DT);
void harness(void) {
  int e = sx_param(0), mode = sx_param(1); opd o; DT d = opnd(&o, "c", e, sx_param(2), e < 0 && -e < PREC ? -e : -1); ref x = o.r; int s = o.s;
  fe_dec_setround(mode);
  vh_errno_set(0); vh_fe_set(0);
  DT y = FN(OP)(d);
  out("y", y);
  sx_assert(fe_dec_getround() == mode, "rounding mode unchanged");
  sx_assert(vh_errno() == 0, "errno untouched");
  int fe = vh_fe_get();
  if (o.k != K_FIN) { num z = dec(y); sx_assert((fe & ~FE_INV) == 0, "special argument raises nothing but invalid"); if (o.k == K_INF) sx_assert(z.k == K_INF && z.s == s && fe == 0, "infinity unchanged"); else sx_assert((z.k == K_QNAN || z.k == K_SNAN) && z.s == s, "NaN stays NaN"); return; }
  int isz = ref_iszero(&x);
  if (isz) { sx_cover("zero"); num z = dec(y); sx_assert(z.k == K_FIN && z.s == s && z.c == 0, "zero stays a zero of the same sign"); sx_assert(fe == 0, "integral argument raises nothing"); return; }
  if (e < 0) {
    int m = KIND < 0 ? mode : KIND;
    int i = ref_round(&x, -e, m);
    if (i) sx_cover("inexact"); else { sx_cover("exact"); sx_assert(fe == 0, "integral argument raises nothing"); }
    sx_assert((fe & ~FE_INEX) == 0, "no exception but inexact");
    assert_is(y, s, 0, &x, "finite result", "sign of the argument", "correct neighbour", 0);
  } else { sx_cover("integral"); sx_assert(fe == 0, "integral argument raises nothing"); assert_is(y, s, 0, &x, "finite result", "sign of the argument", "value unchanged", 0); }
}
