/* fabs, copysign.  params: ex, shapex, shapey */
#include "bid.h"
extern DT FN(fabs)(DT), FN(copysign)(DT, DT);
void harness(void) {
  opd x, y; DT d = opnd(&x, "c", sx_param(0), sx_param(1), -1), f = opnd(&y, "y", 0, sx_param(2), -1), a, b;
  vh_errno_set(0); vh_fe_set(0);
  a = FN(fabs)(d); b = FN(copysign)(d, f); out("fabs", a); out("copysign", b);
  sx_assert(vh_errno() == 0, "errno untouched"); sx_assert(vh_fe_get() == 0, "no exception");
  if (x.k == K_FIN && sx_param(1) != -4) {
    sx_assert(eqbits(a, enc(0, x.r.e, &x.r)), "fabs: same value and quantum, positive");
    sx_assert(eqbits(b, enc(y.s, x.r.e, &x.r)), "copysign: same value and quantum, sign of the second operand");
  } else {
    num p = dec(a), q = dec(b);
    int nan = x.k == K_QNAN || x.k == K_SNAN;
    sx_assert(p.s == 0, "fabs: positive"); sx_assert(q.s == y.s, "copysign: sign of the second operand");
    if (nan) { sx_assert(p.k == K_QNAN || p.k == K_SNAN, "fabs: NaN stays NaN"); sx_assert(q.k == K_QNAN || q.k == K_SNAN, "copysign: NaN stays NaN"); }
    else if (x.k == K_INF) { sx_assert(p.k == K_INF && q.k == K_INF, "infinity stays infinity"); }
    else { sx_assert(p.k == K_FIN && p.c == 0 && q.k == K_FIN && q.c == 0, "non-canonical stays zero"); sx_assert(p.e == x.r.e && q.e == x.r.e, "non-canonical keeps its quantum"); }
  }
}
