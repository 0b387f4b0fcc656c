/* quantum, llquantexp, samequantum.  params: ex, shapex, ey, shapey */
#include "bid.h"
extern DT FN(quantum)(DT); extern long long FN(llquantexp)(DT); extern _Bool FN(samequantum)(DT, DT);
#define NAN_(o) ((o).k == K_QNAN || (o).k == K_SNAN)
void harness(void) {
  opd x, y; DT d = opnd(&x, "c", sx_param(0), sx_param(1), -1), f = opnd(&y, "y", sx_param(2), sx_param(3), -1), q; long long l; int sq;
  vh_fe_set(0); vh_errno_set(0);
  q = FN(quantum)(d); out("quantum", q);
  sx_assert(vh_errno() == 0, "quantum leaves errno");
  sq = FN(samequantum)(d, f); sx_out("samequantum", sq);
  sx_assert(vh_errno() == 0, "samequantum leaves errno");
  l = FN(llquantexp)(d); sx_out("llquantexp", l);
  num z = dec(q);
  if (x.k == K_FIN) {
    sx_assert(l == x.r.e, "llquantexp is the exponent"); sx_assert(vh_errno() == 0, "llquantexp leaves errno");
    if (sx_param(1) != -4 && !ref_iszero(&x.r)) { sx_assert(z.k == K_FIN && z.s == 0 && z.c == 1 && z.e == x.r.e, "quantum is 1 times ten to the exponent"); sx_cover("nonzero"); }
    else sx_assert(z.k == K_FIN && z.e == x.r.e && z.c == 0, "quantum of a zero keeps the exponent");
  } else {
    sx_assert(l == (-0x7fffffffffffffffLL - 1), "llquantexp of a special is the minimum"); sx_assert(vh_errno() == VH_EDOM, "llquantexp of a special is a domain error");
    if (x.k == K_INF) sx_assert(z.k == K_INF && z.s == 0, "quantum of an infinity");
    else sx_assert(z.k == K_QNAN || z.k == K_SNAN, "quantum of a NaN");
  }
  int want = NAN_(x) || NAN_(y) ? NAN_(x) && NAN_(y) : x.k == K_INF || y.k == K_INF ? x.k == K_INF && y.k == K_INF : x.r.e == y.r.e;
  sx_assert(sq == want, "samequantum");
}
