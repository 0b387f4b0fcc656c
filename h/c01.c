/* classification.  params: exponent, shape */
#include "bid.h"
extern int FN(__fpclassify)(DT), FN(__isnan)(DT), FN(__isinf)(DT), FN(__isfinite)(DT), FN(isnormal)(DT), FN(__issignaling)(DT), FN(__signbit)(DT);
enum { C_NAN, C_INF, C_ZERO, C_SUB, C_NORM };
void harness(void) {
  opd x; DT d = opnd(&x, "c", sx_param(0), sx_param(1), -1); int c, r;
  vh_errno_set(0); vh_fe_set(0);
  int fc = FN(__fpclassify)(d), nan = FN(__isnan)(d), inf = FN(__isinf)(d), fin = FN(__isfinite)(d), nrm = FN(isnormal)(d), sig = FN(__issignaling)(d), sb = FN(__signbit)(d);
  sx_out("class", fc); sx_out("nan", nan != 0); sx_out("inf", inf != 0); sx_out("fin", fin != 0); sx_out("norm", nrm != 0); sx_out("sig", sig != 0);
  sx_assert(vh_errno() == 0, "errno untouched"); sx_assert(vh_fe_get() == 0, "no exception");
  if (x.k == K_INF) c = 1; else if (x.k != K_FIN) c = 0;
  else { int nd = ref_ndig(&x.r); c = nd == 0 ? 2 : nd + x.r.e - 1 < EMIN ? 3 : 4; }
  if (c == 0) sx_cover("nan"); if (c == 1) sx_cover("inf"); if (c == 2) sx_cover("zero"); if (c == 3) sx_cover("subnormal"); if (c == 4) sx_cover("normal");
  sx_assert(fc == c, "five-way class");
  sx_assert((nan != 0) == (c == 0), "is NaN"); sx_assert((inf != 0) == (c == 1), "is infinite"); sx_assert((fin != 0) == (c >= 2), "is finite");
  sx_assert((nrm != 0) == (c == 4), "is normal"); sx_assert((sig != 0) == (x.k == K_SNAN), "is signaling"); sx_assert((sb != 0) == x.s, "sign bit");
}
