/* scalbn, scalbln, ldexp.  params: e, shape, n, op */
#include "bid.h"
extern DT FN(scalbn)(DT, int), FN(scalbln)(DT, long), FN(ldexp)(DT, int);
void harness(void) {
  long n = sx_param(2); int op = sx_param(3); opd x; long te = sx_param(0) + n; long cut = te < QMIN ? QMIN - te : -1;
  DT d = opnd(&x, "c", sx_param(0), sx_param(1), cut > 0 && cut < PREC ? cut : -1), y;
  vh_errno_set(0); vh_fe_set(0);
  y = op == 0 ? FN(scalbn)(d, n) : op == 1 ? FN(scalbln)(d, n) : FN(ldexp)(d, n);
  out("y", y); int er = vh_errno(), fe = vh_fe_get();
  num z = dec(y);
  if (x.k != K_FIN) {
    sx_assert(er == 0, "special: errno untouched");
    if (x.k == K_INF) sx_assert(z.k == K_INF && z.s == x.s, "infinity unchanged"); else sx_assert(z.k == K_QNAN || z.k == K_SNAN, "NaN stays NaN");
    return;
  }
  if (sx_param(1) == -4 || ref_iszero(&x.r)) { sx_assert(z.k == K_FIN && z.c == 0 && z.s == x.s, "zero keeps class and sign"); sx_assert(er == 0 && fe == 0, "zero reports nothing"); return; }
  ref r = x.r; int inf = 0, fl;
  r.e = te > 100000 ? 100000 : te < -100000 ? -100000 : te;
  if (r.e > QMAX + PREC) { inf = 1; fl = FL_OVER | FL_INEX; }
  else if (r.e < QMIN - PREC - 2) { for (int i = 0; i < MAXU; i++) r.u[i] = 0; r.e = QMIN; fl = FL_INEX | FL_UNDER; }
  else fl = ref_deliver(&r, RNE, &inf);
  if (inf) { sx_cover("overflow"); sx_assert(z.k == K_INF && z.s == x.s, "overflow gives an infinity"); sx_assert(er == VH_ERANGE, "overflow is a range error"); sx_assert(fe & FE_OVER, "overflow raised"); return; }
  sx_assert(z.s == x.s, "sign kept");
  if (fl & FL_INEX) sx_cover("underflow"); else { sx_cover("exact"); sx_assert(er == 0, "exact result reports nothing"); }
  assert_is(y, x.s, 0, &r, "finite result", "sign", "value times 10^n", 0);
  if (!(fl & FL_INEX)) sx_assert(z.e == r.e, "quantum scaled too");
}
