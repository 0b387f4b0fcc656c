/* Printing.  params: op (0 strfromd, 1 printf hook, 3 strfromd into a short buffer, 4 NULL buffer), e, shape, mode, style, precision, flags, width
   flags: 1 '+', 2 ' ', 4 '-', 8 '0', 16 '#', 32 upper case */
#include "bid.h"
#include "text.h"
#include <stddef.h>
#include <printf.h>
extern int FN(strfrom)(char *, size_t, const char *, DT);
extern int __printf_dfp(void *, const struct printf_info *, const void *const *);
extern int mod_H, mod_D, mod_DD;
extern void *open_memstream(char **, size_t *);
extern int fclose(void *);

#define BIG 470
void harness(void) {
  int op = sx_param(0), e = sx_param(1), mode = sx_param(3), st = sx_param(4), prec = sx_param(5), fl = sx_param(6), width = sx_param(7), i, n = 0, up = fl & 32, m, len, pad;
  opd x; char f[12], got[BIG]; char *nb = 0; size_t gl = 0; text body, all; DT d;
  sx_ctors();
  d = opnd(&x, "c", e, sx_param(2), -1);
  for (i = 0; i < BIG; i++) got[i] = 0x5a;
  /* what the library prints */
  fe_dec_setround(mode); vh_fe_set(0); vh_errno_set(0);
  if (op == 0 || op >= 3) {
    size_t room = op == 0 ? BIG : op == 4 ? 0 : sx_range("n", 0, sx_param(7));
    f[n++] = '%'; if (prec >= 0) { f[n++] = '.'; if (prec > 99) f[n++] = '0' + prec / 100; if (prec > 9) f[n++] = '0' + prec / 10 % 10; f[n++] = '0' + prec % 10; }
    f[n++] = (up ? "EFGA" : "efga")[st]; f[n] = 0;
    m = FN(strfrom)(op == 4 ? 0 : got, room, f, d); gl = sx_concretize(room); width = 0;
  } else {
    struct printf_info in = { 0 }; const DT *p = &d; const void *const a = &p; void *s;
    in.prec = prec; in.width = width; in.spec = (up ? "EFGA" : "efga")[st]; in.user = W == 32 ? mod_H : W == 64 ? mod_D : mod_DD;
    in.showsign = fl & 1; in.space = fl >> 1 & 1; in.left = fl >> 2 & 1; in.pad = fl & 8 && !(fl & 4) ? '0' : ' '; in.alt = fl >> 4 & 1;
    s = open_memstream(&nb, &gl);
    m = __printf_dfp(s, &in, &a); fclose(s);
  }
  /* what is to be printed */
  body.n = all.n = 0;
  if (x.k == K_FIN) t_value(&body, &x.r, st, prec, mode, fl & 16, up);
  else { const char *s = x.k == K_INF ? up ? "INF" : "inf" : up ? "NAN" : "nan"; while (*s) t_put(&body, *s++); }
  pad = width - body.n - (x.s || fl & 3);
  if (pad > 0 && !(fl & 4) && (!(fl & 8) || x.k != K_FIN)) for (i = 0; i < pad; i++) t_put(&all, ' ');
  if (x.s) t_put(&all, '-'); else if (fl & 1) t_put(&all, '+'); else if (fl & 2) t_put(&all, ' ');
  if (pad > 0 && !(fl & 4) && fl & 8 && x.k == K_FIN) for (i = 0; i < pad; i++) t_put(&all, '0');
  for (i = 0; i < body.n; i++) t_put(&all, body.c[i]);
  if (pad > 0 && fl & 4) for (i = 0; i < pad; i++) t_put(&all, ' ');
  if (all.n > TMAX) { sx_assert(0, "harness: text too long"); return; }
  sx_out("ret", m);
  if (op == 1) {
    sx_assert(m == all.n, "count of characters"); sx_assert(gl == all.n, "characters written");
    if (gl == all.n) for (i = 0; i < all.n; i++) { unsigned c = (unsigned char)nb[i]; sx_out("c", c); sx_assert(c == all.c[i], "text"); }
    sx_cover("hook"); return;
  }
  sx_assert(m == all.n, op == 0 ? "count of characters" : "length of the full text");
  if (op == 4) { sx_cover("no buffer"); return; }
  len = gl == 0 ? -1 : all.n < gl ? all.n : (int)gl - 1;
  for (i = 0; i < len && i < all.n; i++) { sx_out("c", (unsigned char)got[i]); sx_assert((unsigned char)got[i] == all.c[i], op == 0 ? "text" : "text that fits"); }
  if (len >= 0) sx_assert(got[len] == 0, "terminated");
  for (i = len + 1; i < BIG; i++) if (got[i] != 0x5a) { sx_assert(0, "nothing written beyond the text"); break; }
  sx_cover(op == 0 ? "strfrom" : gl == 0 ? "no room" : len < all.n ? "truncated" : "fits");
}
