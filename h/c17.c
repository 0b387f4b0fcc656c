/* decimal -> integer.  params: e, shape, mode.  -DTO=0..5: int, unsigned, long, unsigned long, __int128, unsigned __int128 */
#include "bid.h"
#if TO == 0
typedef int T; enum { BITS = 32, SG = 1 };
#elif TO == 1
typedef unsigned T; enum { BITS = 32, SG = 0 };
#elif TO == 2
typedef long T; enum { BITS = 64, SG = 1 };
#elif TO == 3
typedef unsigned long T; enum { BITS = 64, SG = 0 };
#elif TO == 4
typedef __int128 T; enum { BITS = 128, SG = 1 };
#else
typedef unsigned __int128 T; enum { BITS = 128, SG = 0 };
#endif
void harness(void) {
  int e = sx_param(0), mode = sx_param(2); opd x; DT d = opnd(&x, "c", e, sx_param(1), e < 0 && -e < PREC ? -e : -1);
  fe_dec_setround(mode); vh_errno_set(0); vh_fe_set(0);
  T y = (T)d;
  sx_out("y", (u64)y); sx_out("yh", (u64)((u128)y >> 64));
  sx_assert(fe_dec_getround() == mode, "rounding mode unchanged");
  if (x.k != K_FIN) return;      /* unspecified by C */
  ref r = x.r; int big = 0;
  if (sx_param(1) == -4) ref_zero(&r);
  else if (e < 0) ref_round(&r, -e, RTZ);
  else if (e > 40) big = !ref_iszero(&r);
  else ref_shl(&r, e);
  if (!big && ref_ndig(&r) > 39) big = 1;
  if (!big && ref_ndig(&r) == 39) { static const u32 m[13] = { 456, 211, 768, 431, 607, 374, 463, 463, 938, 920, 366, 282, 340 }; /* 2^128 */ if (!lt_units(&r, m, 13)) big = 1; }
  if (!big) {
    u128 v = ref_val(&r), lim = SG ? ((u128)1 << (BITS - 1)) - (x.s ? 0 : 1) : BITS == 128 ? ~(u128)0 : ((u128)1 << (BITS & 127)) - 1;
    if (!SG && x.s) lim = 0;
    if (sx_split(v <= lim)) { sx_cover("fits"); sx_assert(y == (T)(x.s ? -v : v), "value truncated toward zero"); sx_assert(!(vh_fe_get() & FE_INV), "no invalid when it fits"); return; }
  }
  sx_cover("out of range");
}
