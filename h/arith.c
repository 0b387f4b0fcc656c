/* + - * /.  params: e1, shape1, e2, shape2, mode [, prior flags].  -DOPR='+', -DOPK=0..3, -DCHK bit 0: value, bit 1: flags, errno */
#include "bid.h"
#include "arith.h"
#if CHK & 2
extern int __dfp_test_except(int); extern void __dfp_clear_except(void);
#endif
static DT doop(DT a, DT b) { 
#if OPK == 0
  return a + b;
#elif OPK == 1
  return a - b;
#elif OPK == 2
  return a * b;
#else
  return a / b;
#endif
}
void harness(void) {
  opd x, y; int mode = sx_param(4), prior = sx_param(5), inf = 0, fl = 0, nan = 0, inv = 0, dz = 0, useexp = 1;
  DT a = opnd(&x, "a", sx_param(0), sx_param(1), -1), b = opnd(&y, "b", sx_param(2), sx_param(3), -1);
  fe_dec_setround(mode);
#if CHK & 2
  __dfp_clear_except();
#endif
  vh_errno_set(0); vh_fe_set(prior);
  DT z = doop(a, b); int fe = vh_fe_get();
  out("z", z); sx_out("fe", fe);
  ref r; ref_zero(&r);
  int ys = OPK == 1 ? !y.s : y.s, sg = 0; 
  int xz = x.k == K_FIN && (sx_param(1) == -4 || ref_iszero(&x.r)), yz = y.k == K_FIN && (sx_param(3) == -4 || ref_iszero(&y.r));
  if (x.k == K_SNAN || y.k == K_SNAN) nan = 1, inv = 1;
  else if (x.k == K_QNAN || y.k == K_QNAN) nan = 1;
  else if (OPK <= 1) {
    if (x.k == K_INF && y.k == K_INF) { if (x.s == ys) inf = 1, sg = x.s; else nan = 1, inv = 1; }
    else if (x.k == K_INF) inf = 1, sg = x.s; else if (y.k == K_INF) inf = 1, sg = ys;
    else { ref yy = y.r; yy.s = ys; ref_add(&r, &x.r, &yy, mode); fl = ref_deliver(&r, mode, &inf); sg = r.s; 
      if (x.r.e - y.r.e > 84 || y.r.e - x.r.e > 84) useexp = !xz && !yz; }
  } else if (OPK == 2) {
    sg = x.s ^ y.s;
    if (x.k == K_INF || y.k == K_INF) { if (xz || yz) nan = 1, inv = 1; else inf = 1; }
    else { ref_mul(&r, &x.r, &y.r); fl = ref_deliver(&r, mode, &inf); sg = r.s; }
  } else {
    sg = x.s ^ y.s;
    if (x.k == K_INF) { if (y.k == K_INF) nan = 1, inv = 1; else inf = 1; }
    else if (y.k == K_INF) { r.s = sg; useexp = 0; }
    else if (yz) { if (xz) nan = 1, inv = 1; else inf = 1, dz = 1; }
    else if (xz) { r.s = sg; r.e = x.r.e - y.r.e; ref_deliver(&r, mode, &inf); }
    else { int ex = ref_div(&r, &x.r, &y.r); if (ex) ref_ideal(&r, x.r.e - y.r.e); fl = ref_deliver(&r, mode, &inf); }
  }
#if CHK & 1
  sx_assert(fe_dec_getround() == mode, "rounding mode unchanged");
  if (nan) { num n = dec(z); sx_cover("nan"); sx_assert(n.k == K_QNAN, "NaN result is quiet"); }
  else { if (inf) sx_cover("infinite"); else if (fl & FL_INEX) sx_cover("rounded"); else sx_cover("exact");
    assert_is(z, sg, inf, &r, "kind of the result", "sign of the result", "value of the result", useexp ? "exponent of the result" : 0); }
#endif
#if CHK & 2
  { int want = (inv ? FE_INV : 0) | (dz ? FE_DIVZ : 0) | (fl & FL_INEX ? FE_INEX : 0) | (fl & FL_OVER ? FE_OVER : 0) | (fl & FL_UNDER ? FE_UNDER : 0);
    sx_assert((fe & prior) == prior, "flags raised earlier stay raised");
    sx_assert(((fe ^ want) & FE_INV & ~prior) == 0, "invalid exactly when undefined");
    sx_assert(((fe ^ want) & FE_DIVZ & ~prior) == 0, "divide-by-zero exactly for finite/0");
    sx_assert((fe & FE_INEX) >= (want & FE_INEX), "inexact raised when rounded");
    if (!(want & FE_INEX) && !(prior & FE_INEX) && sx_split(fe & FE_INEX ? 1 : 0)) {
      if (__dfp_test_except(FE_INEX)) sx_assert(0, "inexact reported for an exact result"); else sx_assert(0, "KF-binary-inexact: host inexact flag left by binary floating-point helpers on an exact result"); }
    sx_assert(((fe ^ want) & FE_OVER & ~prior) == 0, "overflow exactly when out of range");
    sx_assert(((fe ^ want) & FE_UNDER & ~prior) == 0, "underflow exactly when tiny and inexact"); }
#endif
}
