/* Harness interface.  The same source is executed symbolically by sx and
   compiled natively for replay. */
#ifndef VH_H
#define VH_H
typedef unsigned int u32; typedef unsigned long u64; typedef int s32; typedef long s64;
typedef unsigned __int128 u128; typedef __int128 s128;
extern u64 sx_range(const char *name, u64 lo, u64 hi);
extern void sx_assume(int c);
extern void sx_assert(int c, const char *msg);
extern void sx_cover(const char *msg);
extern void sx_out(const char *name, u64 v);
extern long sx_param(int i);
extern u64 sx_concretize(u64 v);
extern void sx_ctors(void);
extern int sx_split(int c);
extern void sx_tabulate(int on);
extern void sx_opaque_mul(int on);
extern void sx_print(const char *name, u64 v);
extern int vh_errno(void); extern void vh_errno_set(int);
extern int vh_fe_get(void); extern void vh_fe_set(int);   /* raised x86 exception flags */
#define FE_INV 1
#define FE_DIVZ 4
#define FE_OVER 8
#define FE_UNDER 16
#define FE_INEX 32
#define FE_ALL 0x3d
#define VH_EDOM 33
#define VH_ERANGE 34
#define VH_EINVAL 22

union vh_u32 { u32 u; _Decimal32 d; };
union vh_u64 { u64 u; _Decimal64 d; };
union vh_u128 { u64 u[2]; _Decimal128 d; };
static _Decimal32 vh_d32(u32 b) { union vh_u32 x; x.u = b; return x.d; }
static u32 vh_b32(_Decimal32 d) { union vh_u32 x; x.d = d; return x.u; }
static _Decimal64 vh_d64(u64 b) { union vh_u64 x; x.u = b; return x.d; }
static u64 vh_b64(_Decimal64 d) { union vh_u64 x; x.d = d; return x.u; }
static _Decimal128 vh_d128(u64 hi, u64 lo) { union vh_u128 x; x.u[0] = lo; x.u[1] = hi; return x.d; }
static u64 vh_hi128(_Decimal128 d) { union vh_u128 x; x.d = d; return x.u[1]; }
static u64 vh_lo128(_Decimal128 d) { union vh_u128 x; x.d = d; return x.u[0]; }
#endif
