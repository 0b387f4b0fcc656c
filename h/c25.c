/* functions that fill a buffer of a fixed size.  params: op (0 digits, 1 dump), e, shape */
#include "bid.h"
extern char *FN(decode)(DT, char *);
extern void FN(__get_digits_)(DT, char *, int *, int *, int *, int *);
extern void *malloc(unsigned long);
#define DUMP (2 + (NU - 1) * 4 + (W == 128 ? 6 : W == 64 ? 5 : 5) + 1)
void harness(void) {
  opd x; DT d = opnd(&x, "c", sx_param(1), sx_param(2), -1); int i, n = sx_param(0) ? 0 : PREC + 1, e = x.k == K_FIN ? x.r.e : QMIN, ea = e < 0 ? -e : e; char *b;
  if (!n) n = 2 + (NU - 1) * 4 + 2 + (ea > 999 ? 4 : ea > 99 ? 3 : ea > 9 ? 2 : 1) + 1;
  b = malloc(n); for (i = 0; i < n; i++) b[i] = 0x5a;
  if (sx_param(0)) FN(decode)(d, b); else { int e, s, nan, inf; FN(__get_digits_)(d, b, &e, &s, &nan, &inf); }
  for (i = 0; i < n; i++) sx_out("c", (unsigned char)b[i]);
  sx_assert(b[n - 1] == 0, "terminated at the last byte");
  for (i = 0; i < n - 1; i++) if (sx_split(b[i] == 0)) { sx_assert(0, "text shorter than it has to be"); break; }
  sx_cover(sx_param(0) ? "dump" : "digits");
}
