/* integer -> decimal.  params: shape, mode.  -DTO=0..5: int, unsigned, long, unsigned long, __int128, unsigned __int128 */
#include "bid.h"
#if TO == 0
typedef int T; enum { BITS = 32, SG = 1 };
#elif TO == 1
typedef unsigned T; enum { BITS = 32, SG = 0 };
#elif TO == 2
typedef long T; enum { BITS = 64, SG = 1 };
#elif TO == 3
typedef unsigned long T; enum { BITS = 64, SG = 0 };
#elif TO == 4
typedef __int128 T; enum { BITS = 128, SG = 1 };
#else
typedef unsigned __int128 T; enum { BITS = 128, SG = 0 };
#endif
void harness(void) {
  int mode = sx_param(1), inf; ref r; ref_win(&r, "c", sx_param(0), -1);
  int s = SG ? sx_split(sx_range("s", 0, 1)) : 0;
  if (ref_ndig(&r) > 38) { static const u32 m[13] = { 456, 211, 768, 431, 607, 374, 463, 463, 938, 920, 366, 282, 340 }; sx_assume(lt_units(&r, m, 13)); }
  u128 v = ref_val(&r), lim = SG ? ((u128)1 << (BITS - 1)) - !s : BITS == 128 ? ~(u128)0 : ((u128)1 << (BITS & 127)) - 1;
  sx_assume(v <= lim);
  T x = (T)(s ? -v : v);
  fe_dec_setround(mode); vh_errno_set(0); vh_fe_set(0);
  DT y = (DT)x;
  out("y", y);
  sx_assert(fe_dec_getround() == mode, "rounding mode unchanged");
  r.s = s && !ref_iszero(&r); r.e = 0;
  int fl = ref_deliver(&r, mode, &inf);
  sx_cover(fl ? "rounded" : "exact");
  assert_is(y, r.s, inf, &r, "kind", "sign", fl ? "correctly rounded" : "exact value", fl ? 0 : "exponent zero");
}
