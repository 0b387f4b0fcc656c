/* pack, unpack and textual dump.  params: op, e, shape, mode */
#include "decimal128.h"
#include "decimal64.h"
#include "decimal32.h"
#include "decContext.h"
#include "decNumber.h"
#include "bid.h"
#if W == 32
typedef decimal32 dt;
# define TONUM decimal32ToNumber
# define FROMNUM decimal32FromNumber
# define INIT DEC_INIT_DECIMAL32
#elif W == 64
typedef decimal64 dt;
# define TONUM decimal64ToNumber
# define FROMNUM decimal64FromNumber
# define INIT DEC_INIT_DECIMAL64
#else
typedef decimal128 dt;
# define TONUM decimal128ToNumber
# define FROMNUM decimal128FromNumber
# define INIT DEC_INIT_DECIMAL128
#endif
extern char *FN(decode)(DT, char *);
extern void FN(__get_digits_)(DT, char *, int *, int *, int *, int *);
#define ULEN 24
typedef union { decNumber n; char room[sizeof(decNumber) + 2 * ULEN]; } bign;
static const int rmode[5] = { DEC_ROUND_HALF_EVEN, DEC_ROUND_DOWN, DEC_ROUND_CEILING, DEC_ROUND_FLOOR, DEC_ROUND_HALF_UP };
static int put(char *s, int n, int v, int w) { int t = 1; while (w > 1) t *= 10, w--; for (; t; t /= 10) s[n++] = '0' + v / t % 10; return n; }
static void roundtrip(int mode) {
  opd x; DT d = opnd(&x, "c", sx_param(1), sx_param(2), -1), r; bign b; decContext c; dt o; int i;
  for (i = 0; i < (int)sizeof b; i++) b.room[i] = 0x5a;
  vh_fe_set(0); vh_errno_set(0);
  TONUM((dt *)&d, &b.n);
  sx_out("bits", b.n.bits); sx_out("digits", b.n.digits); sx_out("exponent", b.n.exponent);
  sx_assert((b.n.bits >> 7) == x.s, "sign unpacked");
  if (x.k == K_FIN) {
    sx_assert((b.n.bits & 0x70) == 0, "finite unpacked as finite");
    sx_assert(b.n.exponent == x.r.e, "exponent unpacked");
    if (sx_param(2) == -4) sx_assert(b.n.digits == 1 && b.n.lsu[0] == 0, "non-canonical unpacked as zero");
    else {
      int nd = ref_ndig(&x.r), u; sx_assert(b.n.digits == (nd ? nd : 1), "digit count unpacked"); u = b.n.digits <= 0 ? 0 : (b.n.digits + 2) / 3;
      for (i = 0; i < u && i < NU; i++) sx_assert(b.n.lsu[i] == x.r.u[i], "coefficient unpacked");
    }
  } else sx_assert((b.n.bits & 0x70) == (x.k == K_INF ? DECINF : x.k == K_QNAN ? DECNAN : DECSNAN), "kind of special unpacked");
  decContextDefault(&c, INIT); c.round = rmode[mode];
  FROMNUM(&o, &b.n, &c); { union { dt o; DT d; } u; u.o = o; r = u.d; } out("packed", r);
  sx_cover("round trip");
  if (x.k == K_INF) { num z = dec(r); sx_assert(z.k == K_INF && z.s == x.s, "infinity survives"); }
  else if (sx_param(2) == -4) assert_is(r, x.s, 0, &x.r, "zero class", "zero sign", "zero", "zero exponent");
  else sx_assert(eqbits(r, d), "packing what was unpacked gives the original");
  sx_assert(!(c.status & ~DEC_Subnormal), "round trip raises nothing");
}
static void pack(int mode) {
  ref a; bign b; decContext c; dt o; DT r; int i, inf, s = sx_split(sx_range("s", 0, 1)), e = sx_param(1), nd; long sh = sx_param(2);
  ref_win(&a, "c", sh, -1); a.s = s; a.e = e; nd = ref_ndig(&a);
  b.n.digits = nd ? nd : 1; b.n.exponent = e; b.n.bits = s ? DECNEG : 0; for (i = 0; i < ULEN; i++) b.n.lsu[i] = a.u[i];
  decContextDefault(&c, INIT); c.round = rmode[mode];
  FROMNUM(&o, &b.n, &c); { union { dt o; DT d; } u; u.o = o; r = u.d; } out("packed", r);
  int fl = ref_deliver(&a, mode, &inf); sx_cover(fl & FL_INEX ? "rounded" : "exact");
  assert_is(r, s, inf, &a, "pack: class", "pack: sign", "pack: value", "pack: exponent");
  sx_assert(!(c.status & DEC_Inexact) == !(fl & FL_INEX), "pack: inexact status"); sx_assert(!(c.status & DEC_Overflow) == !(fl & FL_OVER), "pack: overflow status");
  sx_assert(!(c.status & DEC_Underflow) == !(fl & FL_UNDER), "pack: underflow status");
}
static void dump(void) {
  opd x; DT d = opnd(&x, "c", sx_param(1), sx_param(2), -1); char s[96], t[96]; int i, n = 0, e = x.k == K_FIN ? x.r.e : QMIN;
  for (i = 0; i < 96; i++) s[i] = 0x5a;
  vh_fe_set(0); vh_errno_set(0);
  sx_assert(FN(decode)(d, s) == s, "the buffer is returned");
  t[n++] = x.s ? '-' : '+'; t[n++] = '0' + (x.k == K_FIN ? x.r.u[NU - 1] : 0);
  for (i = NU - 2; i >= 0; i--) { t[n++] = ','; n = put(t, n, x.k == K_FIN ? x.r.u[i] : 0, 3); }
  t[n++] = 'E'; t[n++] = e < 0 ? '-' : '+'; if (e < 0) e = -e; { int w = e > 999 ? 4 : e > 99 ? 3 : e > 9 ? 2 : 1; n = put(t, n, e, w); } t[n] = 0;
  for (i = 0; i <= n; i++) { sx_out("c", s[i]); sx_assert(s[i] == t[i], "dump shows sign, digits and exponent"); }
  sx_cover("dump");
}
static void digits(void) {
  opd x; DT d = opnd(&x, "c", sx_param(1), sx_param(2), -1); char s[48], t[48]; int i, n = 0, e = 0, sg = 7, nan = 7, inf = 7;
  FN(__get_digits_)(d, s, &e, &sg, &nan, &inf);
  sx_out("e", e); sx_out("sg", sg); sx_out("nan", nan); sx_out("inf", inf);
  sx_assert(sg == x.s, "digits: sign"); sx_assert(!nan == !(x.k == K_QNAN || x.k == K_SNAN), "digits: NaN"); sx_assert(!inf == !(x.k == K_INF), "digits: infinity");
  if (x.k != K_FIN) return;
  t[n++] = '0' + x.r.u[NU - 1]; for (i = NU - 2; i >= 0; i--) n = put(t, n, x.r.u[i], 3); t[n] = 0;
  sx_assert(e == x.r.e, "digits: exponent");
  for (i = 0; i <= PREC; i++) { sx_out("d", s[i]); sx_assert(s[i] == t[i], "digits: coefficient"); }
  sx_cover("digits");
}
void harness(void) {
  switch (sx_param(0)) { case 0: roundtrip(sx_param(3)); break; case 1: pack(sx_param(3)); break; case 2: dump(); break; case 3: digits(); break; }
}
