/* Environment models used under symbolic execution (the native replay uses the
   real C library instead). */
typedef unsigned long u64; typedef unsigned int u32; typedef unsigned char u8; typedef unsigned long size_t;
static int the_errno; static int the_fe; static int the_round;
int *__errno_location(void) { return &the_errno; }
int vh_errno(void) { return the_errno; }
void vh_errno_set(int e) { the_errno = e; }
int vh_fe_get(void) { return the_fe & 0x3d; }
void vh_fe_set(int e) { the_fe = e; }
/* <fenv.h> on x86-64: the status flags are a set of bits */
int feraiseexcept(int e) { the_fe |= e & 0x3d; return 0; }
int fesetexcept(int e) { the_fe |= e & 0x3d; return 0; }
int feclearexcept(int e) { the_fe &= ~e; return 0; }
int fetestexcept(int e) { return the_fe & e; }
int fegetexceptflag(unsigned short *p, int e) { *p = the_fe & e; return 0; }
int fesetexceptflag(const unsigned short *p, int e) { the_fe = (the_fe & ~e) | (*p & e); return 0; }
int fegetround(void) { return the_round; }
int fesetround(int r) { if (r & ~0xc00) return 1; the_round = r; return 0; }
/* <string.h> */
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char *stpcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d + i; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (u8)*a - (u8)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (u8)*a - (u8)*b : 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strncasecmp(const char *a, const char *b, size_t n) { while (n && *a && lc((u8)*a) == lc((u8)*b)) a++, b++, n--; return n ? lc((u8)*a) - lc((u8)*b) : 0; }
int strcasecmp(const char *a, const char *b) { while (*a && lc((u8)*a) == lc((u8)*b)) a++, b++; return lc((u8)*a) - lc((u8)*b); }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
int memcmp(const void *a, const void *b, size_t n) { const u8 *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] - y[i]; return 0; }
void *memchr(const void *a, int c, size_t n) { const u8 *x = a; for (size_t i = 0; i < n; i++) if (x[i] == (u8)c) return (void *)(x + i); return 0; }
/* contracts of multi-word macros, see tool/macros.py */
typedef unsigned _BitInt(256) u256;
void __vc_mul(u64 *q, u64 a0, u64 a1, u64 b0, u64 b1) { u256 p = (((u256)a1 << 64) | a0) * (((u256)b1 << 64) | b0); q[0] = p; q[1] = p >> 64; q[2] = p >> 128; q[3] = p >> 192; }
void __vc_mulh(u64 *q, u64 a0, u64 a1, u64 b0, u64 b1) { u256 p = (((u256)a1 << 64) | a0) * (((u256)b1 << 64) | b0); q[0] = p >> 128; q[1] = p >> 192; }
/* double/float arithmetic on symbolic operands: see sx (only exact integer cases) */
/* <stdio.h>: the conversions the library uses */
extern int sx_split(int);
typedef __builtin_va_list va_list;
static size_t put(char *d, size_t n, size_t at, int c) { if (at < n) d[at] = c; return at + 1; }
static size_t put_num(char *d, size_t n, size_t at, u64 v, int neg, int plus, int width, int zero) {
  int nd = 1; u64 t = 10;
  while (nd < 20 && sx_split(v >= t)) { nd++; if (nd == 20) break; t *= 10; }
  int sg = neg || plus, pad = width - nd - sg;
  if (!zero) for (; pad > 0; pad--) at = put(d, n, at, ' ');
  if (neg) at = put(d, n, at, '-'); else if (plus) at = put(d, n, at, '+');
  for (; pad > 0; pad--) at = put(d, n, at, '0');
  t = 1; for (int i = 1; i < nd; i++) t *= 10;
  for (; nd > 0; nd--, t /= 10) at = put(d, n, at, '0' + (int)(v / t % 10));
  return at;
}
static int fmt(char *d, size_t n, const char *f, va_list ap) {
  size_t at = 0;
  for (; *f; f++) {
    if (*f != '%') { at = put(d, n, at, *f); continue; }
    int zero = 0, plus = 0, width = 0, l = 0; f++;
    for (;; f++) { if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else break; }
    while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    while (*f == 'l') l++, f++;
    if (*f == 'u') at = put_num(d, n, at, l ? __builtin_va_arg(ap, u64) : __builtin_va_arg(ap, u32), 0, 0, width, zero);
    else if (*f == 'd') { long v = l ? __builtin_va_arg(ap, long) : __builtin_va_arg(ap, int); int neg = sx_split(v < 0); at = put_num(d, n, at, neg ? -(u64)v : v, neg, plus, width, zero); }
    else if (*f == 'c') at = put(d, n, at, __builtin_va_arg(ap, int));
    else if (*f == 's') { const char *q = __builtin_va_arg(ap, const char *); while (*q) at = put(d, n, at, *q++); }
    else if (*f == '%') at = put(d, n, at, '%');
    else __builtin_trap();
  }
  if (n) d[at < n ? at : n - 1] = 0;
  return at;
}
int sprintf(char *d, const char *f, ...) { va_list ap; __builtin_va_start(ap, f); int r = fmt(d, 1 << 20, f, ap); __builtin_va_end(ap); return r; }
int snprintf(char *d, size_t n, const char *f, ...) { va_list ap; __builtin_va_start(ap, f); int r = fmt(d, n, f, ap); __builtin_va_end(ap); return r; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
/* <ctype.h>, "C" locale */
static unsigned short ctab[384]; static const unsigned short *ctp;
static int up_(int c) { return c >= 'A' && c <= 'Z'; }
static int lo_(int c) { return c >= 'a' && c <= 'z'; }
static int dg_(int c) { return c >= '0' && c <= '9'; }
static int sp_(int c) { return c == ' ' || (c >= 9 && c <= 13); }
const unsigned short **__ctype_b_loc(void) {
  if (!ctp) {
    for (int c = 0; c < 128; c++) {
      int al = up_(c) || lo_(c), xd = dg_(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'), pr = c >= 32 && c < 127;
      ctab[c + 128] = up_(c) << 8 | lo_(c) << 9 | al << 10 | dg_(c) << 11 | xd << 12 | sp_(c) << 13 | pr << 14 | (pr && c != 32) << 15 | (c == 32 || c == 9) | !pr << 1 | (pr && c != 32 && !al && !dg_(c)) << 2 | (al || dg_(c)) << 3;
    }
    ctp = ctab + 128;
  }
  return &ctp;
}
int tolower(int c) { return up_(c) ? c + 32 : c; }
int toupper(int c) { return lo_(c) ? c - 32 : c; }
int isupper(int c) { return up_(c); }
int islower(int c) { return lo_(c); }
int isdigit(int c) { return dg_(c); }
int isspace(int c) { return sp_(c); }
/* <langinfo.h>, "C" locale: decimal point ".", no grouping */
char *nl_langinfo(int it) {
  if (it == 0x10000) return ".";                       /* RADIXCHAR */
  if (it == 0x10003 || it == 0x40029) return (char *)(long)'.';   /* wide decimal points */
  return "";
}
/* one memory stream at a time */
extern void vh_unmodelled(void); extern void *malloc(size_t);
static char mtext[6700]; static size_t mlen, *mlenp; static char **mptr;
void *open_memstream(char **p, size_t *n) { if (mptr) vh_unmodelled(); mptr = p; mlenp = n; mlen = 0; return &mlen; }
int fflush(void *f) { if (f != &mlen || !mptr) vh_unmodelled(); char *p = malloc(mlen + 1); for (size_t i = 0; i < mlen; i++) p[i] = mtext[i]; p[mlen] = 0; *mptr = p; *mlenp = mlen; return 0; }
int fclose(void *f) { fflush(f); mptr = 0; return 0; }
int putc(int c, void *f) { if (f != &mlen || !mptr || mlen >= sizeof mtext - 1) vh_unmodelled(); mtext[mlen++] = c; return (u8)c; }
int fputc(int c, void *f) { return putc(c, f); }
