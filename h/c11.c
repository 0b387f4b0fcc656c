/* ilogb, llogb, frexp, modf.  params: e, shape */
#include "bid.h"
extern int FN(ilogb)(DT); extern long FN(llogb)(DT); extern DT FN(frexp)(DT, int *), FN(modf)(DT, DT *);
void harness(void) {
  int e = sx_param(0), ex = 12345; opd x; DT d = opnd(&x, "c", e, sx_param(1), e < 0 && -e < PREC ? -e : -1), f, ip, fp; int il, er1, er2, er3, er4; long ll;
  vh_fe_set(0);
  vh_errno_set(0); il = FN(ilogb)(d); er1 = vh_errno(); sx_out("ilogb", (u32)il);
  vh_errno_set(0); ll = FN(llogb)(d); er2 = vh_errno(); sx_out("llogb", ll);
  vh_errno_set(0); f = FN(frexp)(d, &ex); er3 = vh_errno(); out("frexp", f);
  vh_errno_set(0); if (x.k != K_INF) { fp = FN(modf)(d, &ip); er4 = vh_errno(); out("modf", fp); out("modf_int", ip); }
  num z = dec(f);
  if (x.k != K_FIN) {
    if (x.k == K_INF) { sx_assert(il == (x.s ? -0x7fffffff - 1 : 0x7fffffff) && er1 == VH_EDOM, "ilogb of an infinity"); sx_assert(ll == (x.s ? -0x7fffffffffffffffL - 1 : 0x7fffffffffffffffL) && er2 == VH_EDOM, "llogb of an infinity"); sx_assert(z.k == K_INF && z.s == x.s, "frexp of an infinity"); }
    else { sx_assert(er1 == VH_EDOM && er2 == VH_EDOM, "ilogb of a NaN is a domain error"); sx_assert(il == -0x7fffffff - 1 && ll == -0x7fffffffffffffffL - 1, "ilogb of a NaN"); sx_assert(z.k == K_QNAN || z.k == K_SNAN, "frexp of a NaN"); num i = dec(ip), g = dec(fp); sx_assert((i.k == K_QNAN || i.k == K_SNAN) && (g.k == K_QNAN || g.k == K_SNAN), "modf of a NaN"); }
    return;
  }
  int nd = sx_param(1) == -4 ? 0 : ref_ndig(&x.r);
  if (nd == 0) { sx_assert(il == -0x7fffffff - 1 && er1 == VH_EDOM, "ilogb of zero"); sx_assert(ll == -0x7fffffffffffffffL - 1 && er2 == VH_EDOM, "llogb of zero");
    num i = dec(ip), g = dec(fp); sx_assert(i.k == K_FIN && i.c == 0 && i.s == x.s && g.k == K_FIN && g.c == 0, "modf of zero"); return; }
  sx_assert(er1 == 0 && er2 == 0 && er3 == 0 && er4 == 0, "errno untouched");
  sx_assert(il == nd + e - 1, "ilogb is floor(log10|x|)"); sx_assert(ll == nd + e - 1, "llogb is floor(log10|x|)");
  sx_assert(ex == nd + e, "frexp exponent");
  ref r = x.r; r.e = -nd; assert_is(f, x.s, 0, &r, "frexp: finite fraction", "frexp: sign", "frexp: fraction times 10^exponent is x", 0);
  /* integer part: truncation; fraction: the rest */
  ref I = x.r, F = x.r;
  if (e < 0) { int h, in; ref_shr(&I, -e, &h, &in); I.e = 0; 
    int q = -e / 3, m = -e % 3; for (int i = 0; i < MAXU; i++) F.u[i] = i < q ? x.r.u[i] : i == q && m ? x.r.u[i] % p10(m) : 0; }
  else { for (int i = 0; i < MAXU; i++) F.u[i] = 0; }
  num zi = dec(ip), zf = dec(fp);
  sx_assert(zi.k == K_FIN && zf.k == K_FIN, "modf: finite parts");
  if (ref_iszero(&I)) { sx_cover("fraction only"); sx_assert(zi.c == 0 && zi.s == x.s, "modf: zero integer part with sign"); } else { sx_cover("integer part"); assert_is(ip, x.s, 0, &I, "modf: finite integer part", "modf: integer part sign", "modf: integer part", 0); }
  if (ref_iszero(&F)) sx_assert(zf.c == 0, "modf: no fraction"); else assert_is(fp, x.s, 0, &F, "modf: finite fraction", "modf: fraction sign", "modf: fraction", 0);
}
