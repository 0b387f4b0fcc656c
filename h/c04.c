/* fmax fmin fmaxmag fminmag.  params: e1, shape1, e2, shape2, op */
#include "bid.h"
extern DT FN(fmax)(DT, DT), FN(fmin)(DT, DT), FN(fmaxmag)(DT, DT), FN(fminmag)(DT, DT);
void harness(void) {
  int e = sx_param(0), f = sx_param(2), op = sx_param(4), c; opd x, y; DT a = opnd(&x, "a", e, sx_param(1), -1), b = opnd(&y, "b", f, sx_param(3), -1), z;
  fe_dec_setround(sx_param(5));
  z = op == 0 ? FN(fmax)(a, b) : op == 1 ? FN(fmin)(a, b) : op == 2 ? FN(fmaxmag)(a, b) : FN(fminmag)(a, b);
  out("z", z); num n = dec(z);
  sx_assert(fe_dec_getround() == sx_param(5), "rounding mode unchanged");
  if (sx_param(1) == -4) ref_zero(&x.r), x.r.s = x.s, x.r.e = e; if (sx_param(3) == -4) ref_zero(&y.r), y.r.s = y.s, y.r.e = f;
  if (x.k == K_SNAN || y.k == K_SNAN || (x.k == K_QNAN && y.k == K_QNAN)) { sx_assert(n.k == K_QNAN || n.k == K_SNAN, "NaN"); return; }
  int pickx = 0;
  if (x.k == K_QNAN) pickx = 0; else if (y.k == K_QNAN) pickx = 1;
  else {
    int xz = x.k == K_FIN && ref_iszero(&x.r), yz = y.k == K_FIN && ref_iszero(&y.r), mag = 0;
    if (x.k == K_INF || y.k == K_INF) mag = (x.k == K_INF) - (y.k == K_INF);
    else if (xz || yz) mag = yz - xz;
    else if (e - f > 80) mag = 1; else if (f - e > 80) mag = -1;
    else { ref p = x.r, r = y.r; if (e > f) ref_shl(&p, e - f); else ref_shl(&r, f - e); mag = ref_cmpmag(&p, &r); }
    int sgx = xz ? 0 : x.s ? -1 : 1, sgy = yz ? 0 : y.s ? -1 : 1;
    c = sgx != sgy ? (sgx < sgy ? -1 : 1) : sgx < 0 ? -mag : mag;
    if (op >= 2 && mag) c = mag;
    if (c == 0) { /* numerically equal: either operand */
      sx_cover("equal"); if (x.k == K_INF) { sx_assert(n.k == K_INF && n.s == x.s, "equal operands"); return; }
      if (xz) { sx_assert(n.k == K_FIN && n.c == 0 && (n.s == x.s || n.s == y.s), "equal operands: a zero"); return; }
      x.r.e = e; assert_is(z, x.s, 0, &x.r, "equal operands: finite", "equal operands: sign", "equal operands: value", 0); return; }
    pickx = (op & 1) ? c < 0 : c > 0;
  }
  opd *q = pickx ? &x : &y; sx_cover(pickx ? "first" : "second"); q->r.e = pickx ? e : f;
  assert_is(z, q->s, q->k == K_INF, &q->r, "the selected operand: kind", "the selected operand: sign", "the selected operand: value", 0);
}
