/* The text a decimal value is printed as, from its digits (see bid.h). */
#define TMAX 430
typedef struct { unsigned char c[TMAX]; int n; } text;
static void t_put(text *t, int c) { if (t->n < TMAX) t->c[t->n] = c; t->n++; }
static int r_dig(const ref *r, int nd, int i) { u32 v; if (i < 0 || i >= nd) return '0'; v = r->u[i / 3]; return '0' + (i % 3 == 0 ? v % 10 : i % 3 == 1 ? v / 10 % 10 : v / 100); }
static void t_exp(text *t, int x, int two, int up) {
  int a = x < 0 ? -x : x; t_put(t, up ? 'E' : 'e'); t_put(t, x < 0 ? '-' : '+');
  if (a > 999) t_put(t, '0' + a / 1000); if (a > 99) t_put(t, '0' + a / 100 % 10); if (a > 9 || two) t_put(t, '0' + a / 10 % 10); t_put(t, '0' + a % 10);
}
/* fixed notation with p decimals; the value has no digits below 10^-p */
static void t_fixed(text *t, const ref *r, int nd, int p, int alt) {
  int j = nd && nd + r->e > 0 ? nd + r->e - 1 : 0;
  for (; j >= 0; j--) t_put(t, r_dig(r, nd, j - r->e));
  if (p > 0 || alt) t_put(t, '.');
  for (j = -1; j >= -p; j--) t_put(t, r_dig(r, nd, j - r->e));
}
static void t_sci(text *t, const ref *r, int nd, int p, int alt) {   /* d.ddd with p decimals */
  int i; t_put(t, r_dig(r, nd, nd - 1)); if (p > 0 || alt) t_put(t, '.');
  for (i = 1; i <= p; i++) t_put(t, r_dig(r, nd, nd - 1 - i));
}
static int r_sig(ref *r, int P, int mode) {      /* round to P significant digits; number of digits left */
  int nd = ref_ndig(r);
  if (nd > P) { ref_round(r, nd - P, mode); nd = ref_ndig(r); if (nd > P) { int h, x; ref_shr(r, 1, &h, &x); r->e++; nd = P; } }
  return nd;
}
static void t_strip(text *t, int from) {         /* trailing zeros of the fraction */
  int i, dot = 0; for (i = from; i < t->n; i++) if (t->c[i] == '.') dot = 1;
  if (!dot) return;
  while (sx_split(t->c[t->n - 1] == '0')) t->n--;
  if (t->c[t->n - 1] == '.') t->n--;
}
/* style 0 e, 1 f, 2 g, 3 a; prec < 0 = none given.  No sign. */
static void t_value(text *t, const ref *v, int style, int prec, int mode, int alt, int up) {
  ref r = *v; int nd, z = ref_iszero(&r), from = t->n;
  if (style == 0) {
    int p = prec < 0 ? 6 : prec; nd = r_sig(&r, p + 1, mode);
    t_sci(t, &r, nd, p, alt); t_exp(t, z ? 0 : r.e + nd - 1, 1, up);
  } else if (style == 1) {
    int p = prec < 0 ? 6 : prec; if (!z && -p - r.e > 0) ref_round(&r, -p - r.e, mode);
    t_fixed(t, &r, ref_ndig(&r), p, alt);
  } else if (style == 2) {
    int P = prec < 0 ? 6 : prec ? prec : 1, X; nd = r_sig(&r, P, mode); X = z ? 0 : r.e + nd - 1;
    if (P > X && X >= -4) { t_fixed(t, &r, nd, P - 1 - X, alt); if (!alt) t_strip(t, from); }
    else { t_sci(t, &r, nd, P - 1, alt); if (!alt) t_strip(t, from); t_exp(t, X, 1, up); }
  } else {
    nd = ref_ndig(&r); if (prec == 0) prec = 1;
    if (prec > 0 && nd > prec) nd = r_sig(&r, prec, mode);
    if (!nd) nd = 1;
    if (r.e >= -(nd + 5) && r.e <= 0) t_fixed(t, &r, nd, -r.e, alt);
    else { t_sci(t, &r, nd, nd - 1, alt); t_exp(t, r.e + nd - 1, 0, up); }
  }
}
