/* exact reference arithmetic over base-1000 groups; results feed ref_deliver */
static void ref_add(ref *o, const ref *a, const ref *b, int mode) {   /* exact a+b, exponent min(e) ; zero sign by mode */
  ref x = *a, y = *b; int i;
  if (x.e < y.e) { if (y.e - x.e <= 84) ref_shl(&y, y.e - x.e); else { ref t = x; x = y; y = t; } }
  if (x.e > y.e && x.e - y.e <= 84) { ref_shl(&x, x.e - y.e); x.e = y.e; }
  if (x.e > y.e) {      /* far apart: x dominates unless zero; y only as a sticky digit far below */
    if (ref_iszero(&x)) { *o = y; ref_zero(&x); if (ref_iszero(&y)) o->s = x.s == y.s ? y.s : mode == RDN; return; }
    if (ref_iszero(&y)) { int d = x.e - y.e; if (d > 84) d = 84; ref_shl(&x, d); x.e -= d; *o = x; return; }   /* caller only checks the delivered exponent when it is reachable */
    ref_shl(&x, 84); x.e -= 84; for (i = 0; i < MAXU; i++) y.u[i] = i == 0; 
  }
  o->e = x.e < y.e ? x.e : y.e; if (x.e != y.e) o->e = x.e;
  if (x.s == y.s) {
    u32 c = 0; o->s = x.s;
    for (i = 0; i < MAXU; i++) { u32 t = x.u[i] + y.u[i] + c; c = t >= 1000; o->u[i] = t - c * 1000; }
  } else {
    int m = ref_cmpmag(&x, &y); ref *p = m < 0 ? &y : &x, *q = m < 0 ? &x : &y; u32 c = 0;
    o->s = m == 0 ? mode == RDN : p->s;
    for (i = 0; i < MAXU; i++) { u32 t = p->u[i] + 1000 - q->u[i] - c; c = t < 1000; o->u[i] = c ? t : t - 1000; }
  }
}
static void ref_mul(ref *o, const ref *a, const ref *b) {
  int i, j; u32 c = 0; ref r; ref_zero(&r); r.s = a->s ^ b->s; r.e = a->e + b->e;
  for (i = 0; i < MAXU; i++) {
    for (j = 0; j <= i; j++) if (j < 12 && i - j < 12) c += a->u[j] * b->u[i - j];
    r.u[i] = c % 1000; c /= 1000;
  }
  *o = r;
}
/* a/b, both nonzero: *o has 3*NG quotient digits and a sticky digit; returns whether exact.  The quotient's exponent is o->e */
static int ref_div(ref *o, const ref *a, const ref *b) {
  u128 D = ref_val(b), R = ref_val(a), q; int i, n = 0; ref r; ref_zero(&r);
  /* R/D < 10^PREC: the integer quotient (PREC digits), then fraction digits */
  int fd = (PREC + PREC + 5) / 3 * 3;
  q = R / D; R = R % D;
  for (i = 0; i < 12; i++) { r.u[fd / 3 + i] = q % 1000; q /= 1000; }
  for (i = fd - 1; i >= 0; i--) { u32 d; R *= 10; d = R / D; R = R % D; if (i % 3 == 2) r.u[i / 3] = d * 100; else r.u[i / 3] += d * (i % 3 ? 10 : 1); }
  r.s = a->s ^ b->s; r.e = a->e - b->e - fd;
  int ex = sx_split(R == 0);
  if (!ex) { ref_shl(&r, 3); r.e -= 3; r.u[0] = 1; }
  *o = r; return ex;
}
/* exact quotient: move the exponent to the one closest to the ideal that keeps it exact */
static void ref_ideal(ref *r, int ideal) {
  while (r->e < ideal && sx_split(r->u[0] % 10 == 0)) { int h, x; if (ref_iszero(r)) { r->e = ideal; return; } ref_shr(r, 1, &h, &x); r->e++; }
}
