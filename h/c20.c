/* decimal rounding mode.  params: op, ex, shapex, ey, shapey ; op 0: history of setting calls */
#include "bid.h"
#define U1(f) extern DT FN(f)(DT);
#define U2(f) extern DT FN(f)(DT, DT);
U2(quantize) U1(rint) U1(nearbyint) U2(nextafter) extern DT FN(nexttoward)(DT, _Decimal128); U1(nextup) U1(nextdown) U1(round) U1(ceil) U1(floor) U1(trunc) U1(roundeven)
U2(fdim) U2(fmod) U2(remainder) U2(fmax) U1(exp) U1(log) U1(quantum)
extern DT FN(scalbn)(DT, int), FN(frexp)(DT, int *), FN(modf)(DT, DT *), FN(fma)(DT, DT, DT);
extern long FN(lrint)(DT), FN(llround)(DT); extern int FN(ilogb)(DT);
extern int FN(isgreater)(DT, DT), FN(fpclassify)(DT);
static __attribute__((noinline)) DT s2(int op, DT a, DT b) { return op == 1 ? a + b : op == 2 ? a - b : op == 3 ? a * b : a / b; }
static __attribute__((noinline)) _Decimal128 wide(DT a) { return a; }
static __attribute__((noinline)) _Decimal32 narrow(DT a) { return a; }
static __attribute__((noinline)) long toint(DT a) { return a; }
static __attribute__((noinline)) unsigned __int128 toti(DT a) { return a; }
static __attribute__((noinline)) DT fromint(long a) { return a; }
static __attribute__((noinline)) DT fromti(__int128 a) { return a; }
static void history(void) {
  char n[3] = { 'n', 'a', 0 }; int cur = sx_range("m0", 0, 4);
  sx_assert(fe_dec_setround(cur) == 0, "a valid mode is accepted"); sx_assert(fe_dec_getround() == cur, "and reported");
  for (int i = 0; i < sx_param(1); i++) {
    n[1] = 'a' + i; int m = (int)sx_range(n, 0, 0xffffffffu), r = fe_dec_setround(m);
    if (sx_split(m >= 0 && m <= 4)) { sx_cover("valid"); sx_assert(r == 0, "a valid mode is accepted"); cur = m; }
    else { sx_cover("invalid"); sx_assert(r != 0, "an invalid mode is refused"); }
    sx_assert(fe_dec_getround() == cur, "the last accepted mode is reported");
    sx_assert(fe_dec_getround() == cur, "asking does not change it");
  }
}
void harness(void) {
  int op = sx_param(0); if (op == 0) { history(); return; }
  opd x, y; int i; DT t; DT a = opnd(&x, "a", sx_param(1), sx_param(2), -1), b = opnd(&y, "b", sx_param(3), sx_param(4), -1);
  int mode = sx_concretize(sx_range("mode", 0, 4)); fe_dec_setround(mode);
  switch (op) {
  case 1: case 2: case 3: case 4: out("y", s2(op, a, b)); break;
  case 5: out("y", FN(quantize)(a, b)); break;
  case 6: out("y", FN(rint)(a)); break;
  case 7: out("y", FN(nearbyint)(a)); break;
  case 8: out("y", FN(nextafter)(a, b)); break;
  case 9: out("y", FN(nexttoward)(a, wide(b))); break;
  case 10: out("y", FN(nextup)(a)); break;
  case 11: out("y", FN(nextdown)(a)); break;
  case 12: out("y", FN(round)(a)); break;
  case 13: out("y", FN(ceil)(a)); break;
  case 14: out("y", FN(floor)(a)); break;
  case 15: out("y", FN(trunc)(a)); break;
  case 16: out("y", FN(roundeven)(a)); break;
  case 17: out("y", FN(fdim)(a, b)); break;
  case 18: out("y", FN(fmod)(a, b)); break;
  case 19: out("y", FN(remainder)(a, b)); break;
  case 20: out("y", FN(fmax)(a, b)); break;
  case 21: out("y", FN(exp)(a)); break;
  case 22: out("y", FN(log)(a)); break;
  case 23: out("y", FN(scalbn)(a, 3)); break;
  case 24: out("y", FN(frexp)(a, &i)); break;
  case 25: out("y", FN(modf)(a, &t)); break;
  case 26: out("y", FN(fma)(a, b, b)); break;
  case 27: sx_out("y", FN(lrint)(a)); break;
  case 28: sx_out("y", FN(llround)(a)); break;
  case 29: sx_out("y", FN(ilogb)(a)); break;
  case 30: sx_out("y", vh_lo128(wide(a))); break;
  case 31: sx_out("y", vh_b32(narrow(a))); break;
  case 32: sx_out("y", toint(a)); break;
  case 33: sx_out("y", toti(a)); break;
  case 34: out("y", fromint(0x7fffffffffffffffL - sx_range("i", 0, 255))); break;
  case 35: out("y", fromti(((s128)0x7fffffffffffffffL << 64) - sx_range("i", 0, 255))); break;
  case 36: sx_out("y", a < b); break;
  case 37: out("y", FN(quantum)(a)); break;
  }
  sx_cover("operation"); sx_assert(fe_dec_getround() == mode, "the decimal rounding mode is left as it was");
}
