__attribute__((weak)) int (*__printf_dfp_getround_callback)(void);
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fenv.h>
static char nm[256][64]; static unsigned long vv[256]; static int n;
static long par[64]; static int fails;
unsigned long sx_range(const char *name, unsigned long lo, unsigned long hi) {
  for (int i = 0; i < n; i++) if (!strcmp(nm[i], name)) { if (vv[i] < lo || vv[i] > hi) { printf("RANGE %s\n", name); exit(78); } return vv[i]; }
  return lo;
}
void sx_assume(int c) { if (!c) { printf("ASSUME\n"); fflush(stdout); exit(77); } }
void sx_assert(int c, const char *m) { if (!c) { printf("FAIL %s\n", m); fflush(stdout); fails++; } }
void sx_cover(const char *m) { printf("COVER %s\n", m); }
void sx_out(const char *m, unsigned long v) { printf("OUT %s %lu\n", m, v); }
long sx_param(int i) { return par[i]; }
unsigned long sx_concretize(unsigned long v) { return v; }
int sx_split(int c) { return c; }
void sx_opaque_mul(int on) { }
void sx_tabulate(int on) { }
int sx_symbolic(void) { return 0; }
void sx_ctors(void) { }
void sx_print(const char *m, unsigned long v) { printf("PRINT %s %lu (%#lx)\n", m, v, v); }
int vh_errno(void) { return errno; }
void vh_errno_set(int e) { errno = e; }
int vh_fe_get(void) { return fetestexcept(FE_ALL_EXCEPT); }
void vh_fe_set(int e) { feclearexcept(FE_ALL_EXCEPT); if (e) feraiseexcept(e); }
extern void harness(void);
int main(int c, char **v) {
  FILE *f = fopen(v[1], "r"); if (!f) return 76;
  while (n < 256 && fscanf(f, "%63s %lu", nm[n], &vv[n]) == 2) n++;
  fclose(f);
  for (int i = 2; i < c && i < 66; i++) par[i - 2] = atol(v[i]);
  harness();
  printf("DONE\n"); fflush(stdout);
  return fails ? 1 : 0;
}
