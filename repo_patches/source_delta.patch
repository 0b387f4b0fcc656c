From 6b5dd9d277e3eae4fef5bf6f17986c9125c59a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 01/17] fix: report every raised exception, not only the last
 one tested, to fenv

---
 libbid/bid_decimal_globals.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libbid/bid_decimal_globals.c b/libbid/bid_decimal_globals.c
index 5ce0655..ebb97da 100644
--- a/libbid/bid_decimal_globals.c
+++ b/libbid/bid_decimal_globals.c
@@ -97,10 +97,10 @@ __dfp_set_status (int excepts) {
   else
     {
       int fexcepts = (excepts & INEXACT_EXCEPTION) ? FE_INEXACT : 0;
-      fexcepts = (excepts & OVERFLOW_EXCEPTION) ? FE_OVERFLOW : 0;
-      fexcepts = (excepts & UNDERFLOW_EXCEPTION) ? FE_UNDERFLOW : 0;
-      fexcepts = (excepts & ZERO_DIVIDE_EXCEPTION) ? FE_DIVBYZERO : 0;
-      fexcepts = (excepts & INVALID_EXCEPTION) ? FE_INVALID: 0;
+      fexcepts |= (excepts & OVERFLOW_EXCEPTION) ? FE_OVERFLOW : 0;
+      fexcepts |= (excepts & UNDERFLOW_EXCEPTION) ? FE_UNDERFLOW : 0;
+      fexcepts |= (excepts & ZERO_DIVIDE_EXCEPTION) ? FE_DIVBYZERO : 0;
+      fexcepts |= (excepts & INVALID_EXCEPTION) ? FE_INVALID: 0;
       fesetexcept (fexcepts);
     }
 }
-- 
2.43.0


From 3df787c71a0d7add01f1942e55bed897cf22b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 02/17] fix: decode non-canonical 64- and 128-bit BID
 coefficients as zero

---
 libdecnumber/bid/bid2dpd_dpd2bid.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libdecnumber/bid/bid2dpd_dpd2bid.c b/libdecnumber/bid/bid2dpd_dpd2bid.c
index 63d3cec..39ea14b 100644
--- a/libdecnumber/bid/bid2dpd_dpd2bid.c
+++ b/libdecnumber/bid/bid2dpd_dpd2bid.c
@@ -189,6 +189,8 @@ _bid_to_dpd64 (_Decimal64 *pres, _Decimal64 *px) {
   if ((comb & 0xc00) == 0xc00) { /* G0..G1 = 11 -> exp is G2..G11 */
     exp = (comb) & 0x3ff;
     bcoeff = (x & 0x0007ffffffffffffull) | 0x0020000000000000ull;
+    if (bcoeff > 9999999999999999ull) /* non-canonical: zero */
+      bcoeff = 0;
   } else {
     exp = (comb >> 2) & 0x3ff;
     bcoeff = (x & 0x001fffffffffffffull);
@@ -301,6 +303,16 @@ _bid_to_dpd128 (_Decimal128 *pres, _Decimal128 *px) {
     exp = ((x.w[1] & 0x7fff000000000000ull) >> 49) & 0x3fff;
     bcoeff.w[1] = (x.w[1] & 0x0001ffffffffffffull);
     bcoeff.w[0] = x.w[0];
+    if ((comb & 0x18000) == 0x18000) { /* G0..G1 = 11: always non-canonical */
+      exp = (x.w[1] >> 47) & 0x3fff;
+      bcoeff.w[1] = 0;
+      bcoeff.w[0] = 0;
+    } else if (bcoeff.w[1] > 0x0001ed09bead87c0ull
+               || (bcoeff.w[1] == 0x0001ed09bead87c0ull
+                   && bcoeff.w[0] > 0x378d8e63ffffffffull)) {
+      bcoeff.w[1] = 0; /* more than 34 digits: non-canonical, zero */
+      bcoeff.w[0] = 0;
+    }
     d1018 = reciprocals10_128[18];
     __mul_128x128_high (BH, bcoeff, d1018);
     amount = recip_scale[18];
-- 
2.43.0


From da1b318ae40cc337cf165874ca2b4d646db9a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 03/17] fix: scalbn, scalbln: a huge power overflows or
 underflows instead of wrapping

---
 ieee754r/scalblnd32.c | 17 ++++++++++-------
 ieee754r/scalbnd32.c  |  8 ++++++++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/ieee754r/scalblnd32.c b/ieee754r/scalblnd32.c
index 3847cbf..057dcde 100644
--- a/ieee754r/scalblnd32.c
+++ b/ieee754r/scalblnd32.c
@@ -44,6 +44,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
   decContext context;
   DEC_TYPE result;
   decNumber dn_x, dn_y;
+  int32_t limit;
 /*   long long int sum=0LL;  */
 /*  uint32_t temp2 = 0;  */
   /* Otherwise this may pass a bad residue to decFinalize which can result in
@@ -66,13 +67,15 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
 //
 //  decFinalize(&dn_x, &context, &temp, &temp2);
 
-  if (y >= 1000000000L || y <= -2000000000L)
-    context.status |= DEC_Overflow;
-  else 
-    {
-    decNumberFromInt32(&dn_y, (int)y);
-    decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
-    }
+  /* decNumberScaleB refuses larger powers; all of them overflow or
+   * underflow.  */
+  limit = 2 * (context.emax + context.digits);
+  if (y > limit)
+    y = limit;
+  else if (y < -limit)
+    y = -limit;
+  decNumberFromInt32(&dn_y, (int)y);
+  decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
 
   FUNC_CONVERT_FROM_DN(&dn_x, &result, &context);
   if (context.status & DEC_Overflow)
diff --git a/ieee754r/scalbnd32.c b/ieee754r/scalbnd32.c
index 57a53e2..e4568aa 100644
--- a/ieee754r/scalbnd32.c
+++ b/ieee754r/scalbnd32.c
@@ -46,6 +46,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
   decContext context;
   DEC_TYPE result;
   decNumber dn_x, dn_y;
+  int32_t limit;
 /*  long int sum = 0L; */
 /*  uint32_t temp2 = 0; */
   /* Otherwise this may pass a bad residue to decFinalize which can result in
@@ -67,6 +68,13 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 //
 //  decFinalize(&dn_x, &context, &temp, &temp2);
 
+  /* decNumberScaleB refuses larger powers; all of them overflow or
+   * underflow.  */
+  limit = 2 * (context.emax + context.digits);
+  if (y > limit)
+    y = limit;
+  else if (y < -limit)
+    y = -limit;
   decNumberFromInt32(&dn_y, y);
   decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
 
-- 
2.43.0


From 29814711627f0d04dbd48d326e9ccccb35e90552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 04/17] fix: ldexp: return specials and zeros unchanged, round
 once, report overflow and underflow

---
 ieee754r/ldexpd32.c | 62 ++++++++++++---------------------------------
 1 file changed, 16 insertions(+), 46 deletions(-)

diff --git a/ieee754r/ldexpd32.c b/ieee754r/ldexpd32.c
index 4b06ed4..9da154a 100644
--- a/ieee754r/ldexpd32.c
+++ b/ieee754r/ldexpd32.c
@@ -37,70 +37,40 @@
 #define FUNCTION_NAME ldexp
 
 #include <dfpmacro.h>
-#include <numdigits.h>
-#include <limits.h>
 
-#include "dfp_inline.h"
 
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 {
-  DEC_TYPE result, tiny;
-  long newexp;
-  int minexp = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emin));
-  int p = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Pmax));
-
-#if NUMDIGITS_SUPPORT==1
-  newexp = FUNC_D (getexp) (x) + y;
-  if (newexp > PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emax)))
-    {
-    result = FUNC_D(__copysign)(DFP_HUGE_VAL, x);
-    DFP_EXCEPT (FE_OVERFLOW);
-    }
-  else if (newexp < minexp)
-    {
-    /* Check if the result might be subnormal. */
-    if( newexp > (minexp - p))
-      {
-        result = FUNC_D(setexp) (x, minexp);
-        /* Use a multiply so we correctly round whatever may shifts out. */
-        tiny = FUNC_D(setexp) (1.DL, newexp - minexp);
-        return result * tiny;
-      }
-    result = DFP_CONSTANT(0.0);
-    DFP_EXCEPT (FE_UNDERFLOW);
-    return result;
-    }
-  else
-    result = FUNC_D(setexp) (x, newexp);
-
-#else
+  DEC_TYPE result;
   decContext context;
   decNumber dn_x;
+  int32_t limit;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (___decNumberIsNaN (&dn_x) || ___decNumberIsZero (&dn_x) ||
-	___decNumberIsInfinite (&dn_x))
+
+  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x) ||
+	decNumberIsInfinite (&dn_x))
     return x+x;
+
   if (y == 0)
     return x;
 
+  decContextDefault (&context, DEFAULT_CONTEXT);
   /* ldexp(x,y) is just x*10**y, which is equivalent to increasing the exponent
-   * by y.  */
-  newexp = dn_x.exponent + y;
-  if(newexp > INT_MAX)
-    newexp = INT_MAX;
-  if(newexp < -INT_MAX)
-    newexp = -INT_MAX;
-  dn_x.exponent = newexp;
+   * by y.  Any y beyond the limit overflows or underflows.  */
+  limit = 2 * (context.emax + context.digits);
+  if (y > limit)
+    y = limit;
+  else if (y < -limit)
+    y = -limit;
+  dn_x.exponent += y;
 
-  decContextDefault (&context, DEFAULT_CONTEXT);
   FUNC_CONVERT_FROM_DN (&dn_x, &result, &context);
-
   if (context.status & DEC_Overflow)
     DFP_EXCEPT (FE_OVERFLOW);
-#endif
-
+  if (context.status & DEC_Underflow)
+    DFP_EXCEPT (FE_UNDERFLOW);
   return result;
 }
 
-- 
2.43.0


From 2ddcf4b907491beacf7bd27814416c09fbd17705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 05/17] fix: arithmetic: raise exactly the exceptions of the
 decimal operation in fenv

---
 libbid/_addsub_dd.c   |  5 +++++
 libbid/_addsub_sd.c   |  5 +++++
 libbid/_addsub_td.c   |  7 ++++++-
 libbid/_div_dd.c      |  3 +++
 libbid/_div_sd.c      |  3 +++
 libbid/_div_td.c      |  3 +++
 libbid/_mul_dd.c      |  3 +++
 libbid/_mul_sd.c      |  3 +++
 libbid/_mul_td.c      |  3 +++
 libbid/bid_op_flags.h | 40 ++++++++++++++++++++++++++++++++++++++++
 10 files changed, 74 insertions(+), 1 deletion(-)
 create mode 100644 libbid/bid_op_flags.h

diff --git a/libbid/_addsub_dd.c b/libbid/_addsub_dd.c
index 668de0f..cc83f2f 100644
--- a/libbid/_addsub_dd.c
+++ b/libbid/_addsub_dd.c
@@ -24,24 +24,29 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
+#include "bid_op_flags.h"
 
 _Decimal64
 __bid_adddd3 (_Decimal64 x, _Decimal64 y) {
   union decimal64 ux, uy, res;
+  bid_op_flags flags = bid_op_begin ();
 
   ux.d = x;
   uy.d = y;
   res.i = __bid64_add (ux.i, uy.i);
+  bid_op_end (flags);
   return (res.d);
 }
 
 _Decimal64
 __bid_subdd3 (_Decimal64 x, _Decimal64 y) {
   union decimal64 ux, uy, res;
+  bid_op_flags flags = bid_op_begin ();
 
   ux.d = x;
   uy.d = y;
   res.i = __bid64_sub (ux.i, uy.i);
+  bid_op_end (flags);
   return (res.d);
 }
 hidden_def(__bid_adddd3);
diff --git a/libbid/_addsub_sd.c b/libbid/_addsub_sd.c
index d6027f4..8a54b0b 100644
--- a/libbid/_addsub_sd.c
+++ b/libbid/_addsub_sd.c
@@ -24,11 +24,13 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
+#include "bid_op_flags.h"
 
 _Decimal32
 __bid_addsd3 (_Decimal32 x, _Decimal32 y) {
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
+  bid_op_flags flags = bid_op_begin ();
 
   ux.d = x;
   uy.d = y;
@@ -36,6 +38,7 @@ __bid_addsd3 (_Decimal32 x, _Decimal32 y) {
   y64 = __bid32_to_bid64 (uy.i);
   res64 = __bid64_add (x64, y64);
   res.i = __bid64_to_bid32 (res64);
+  bid_op_end (flags);
   return (res.d);
 }
 
@@ -43,6 +46,7 @@ _Decimal32
 __bid_subsd3 (_Decimal32 x, _Decimal32 y) {
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
+  bid_op_flags flags = bid_op_begin ();
 
   ux.d = x;
   uy.d = y;
@@ -50,6 +54,7 @@ __bid_subsd3 (_Decimal32 x, _Decimal32 y) {
   y64 = __bid32_to_bid64 (uy.i);
   res64 = __bid64_sub (x64, y64);
   res.i = __bid64_to_bid32 (res64);
+  bid_op_end (flags);
   return (res.d);
 }
 hidden_def(__bid_addsd3);
diff --git a/libbid/_addsub_td.c b/libbid/_addsub_td.c
index b927f2f..06cd4d8 100644
--- a/libbid/_addsub_td.c
+++ b/libbid/_addsub_td.c
@@ -23,25 +23,30 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 #include "bid_conf.h"
 #include "bid_functions.h"
-#include "bid_gcc_intrinsics.h" 
+#include "bid_gcc_intrinsics.h"
+#include "bid_op_flags.h"
 
 _Decimal128
 __bid_addtd3 (_Decimal128 x, _Decimal128 y) {
   union decimal128 ux, uy, res;
+  bid_op_flags flags = bid_op_begin ();
 
   ux.d = x;
   uy.d = y;
   res.i = __bid128_add (ux.i, uy.i);
+  bid_op_end (flags);
   return (res.d);
 }
 
 _Decimal128
 __bid_subtd3 (_Decimal128 x, _Decimal128 y) {
   union decimal128 ux, uy, res;
+  bid_op_flags flags = bid_op_begin ();
 
   ux.d = x;
   uy.d = y;
   res.i = __bid128_sub (ux.i, uy.i);
+  bid_op_end (flags);
   return (res.d);
 }
 hidden_def(__bid_addtd3);
diff --git a/libbid/_div_dd.c b/libbid/_div_dd.c
index 47dcfe3..9a60347 100644
--- a/libbid/_div_dd.c
+++ b/libbid/_div_dd.c
@@ -24,14 +24,17 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
+#include "bid_op_flags.h"
 
 _Decimal64
 __bid_divdd3 (_Decimal64 x, _Decimal64 y) {
   union decimal64 ux, uy, res;
+  bid_op_flags flags = bid_op_begin ();
 
   ux.d = x;
   uy.d = y;
   res.i = __bid64_div (ux.i, uy.i);
+  bid_op_end (flags);
   return (res.d);
 }
 hidden_def(__bid_divdd3);
diff --git a/libbid/_div_sd.c b/libbid/_div_sd.c
index bb05b8f..2526a36 100644
--- a/libbid/_div_sd.c
+++ b/libbid/_div_sd.c
@@ -24,11 +24,13 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
+#include "bid_op_flags.h"
 
 _Decimal32
 __bid_divsd3 (_Decimal32 x, _Decimal32 y) {
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
+  bid_op_flags flags = bid_op_begin ();
 
   ux.d = x;
   uy.d = y;
@@ -36,6 +38,7 @@ __bid_divsd3 (_Decimal32 x, _Decimal32 y) {
   y64 = __bid32_to_bid64 (uy.i);
   res64 = __bid64_div (x64, y64);
   res.i = __bid64_to_bid32 (res64);
+  bid_op_end (flags);
   return (res.d);
 }
 hidden_def(__bid_divsd3);
diff --git a/libbid/_div_td.c b/libbid/_div_td.c
index 97e15f6..ab7c2e9 100644
--- a/libbid/_div_td.c
+++ b/libbid/_div_td.c
@@ -24,14 +24,17 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
+#include "bid_op_flags.h"
 
 _Decimal128
 __bid_divtd3 (_Decimal128 x, _Decimal128 y) {
   union decimal128 ux, uy, res;
+  bid_op_flags flags = bid_op_begin ();
 
   ux.d = x;
   uy.d = y;
   res.i = __bid128_div (ux.i, uy.i);
+  bid_op_end (flags);
   return (res.d);
 }
 hidden_def(__bid_divtd3);
diff --git a/libbid/_mul_dd.c b/libbid/_mul_dd.c
index a4107eb..d7bfc8c 100644
--- a/libbid/_mul_dd.c
+++ b/libbid/_mul_dd.c
@@ -24,14 +24,17 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
+#include "bid_op_flags.h"
 
 _Decimal64
 __bid_muldd3 (_Decimal64 x, _Decimal64 y) {
   union decimal64 ux, uy, res;
+  bid_op_flags flags = bid_op_begin ();
  
   ux.d = x;
   uy.d = y;
   res.i = __bid64_mul (ux.i, uy.i);
+  bid_op_end (flags);
   return (res.d);
 }
 hidden_def(__bid_muldd3);
diff --git a/libbid/_mul_sd.c b/libbid/_mul_sd.c
index 3db444d..733e693 100644
--- a/libbid/_mul_sd.c
+++ b/libbid/_mul_sd.c
@@ -24,11 +24,13 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
+#include "bid_op_flags.h"
 
 _Decimal32
 __bid_mulsd3 (_Decimal32 x, _Decimal32 y) {
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
+  bid_op_flags flags = bid_op_begin ();
  
   ux.d = x;
   uy.d = y;
@@ -36,6 +38,7 @@ __bid_mulsd3 (_Decimal32 x, _Decimal32 y) {
   y64 = __bid32_to_bid64 (uy.i);
   res64 = __bid64_mul (x64, y64);
   res.i = __bid64_to_bid32 (res64);
+  bid_op_end (flags);
   return (res.d);
 }
 hidden_def(__bid_mulsd3);
diff --git a/libbid/_mul_td.c b/libbid/_mul_td.c
index 619285e..cafba54 100644
--- a/libbid/_mul_td.c
+++ b/libbid/_mul_td.c
@@ -24,14 +24,17 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
+#include "bid_op_flags.h"
 
 _Decimal128
 __bid_multd3 (_Decimal128 x, _Decimal128 y) {
   union decimal128 ux, uy, res;
+  bid_op_flags flags = bid_op_begin ();
 
   ux.d = x;
   uy.d = y;
   res.i = __bid128_mul (ux.i, uy.i);
+  bid_op_end (flags);
   return (res.d);
 }
 hidden_def(__bid_multd3);
diff --git a/libbid/bid_op_flags.h b/libbid/bid_op_flags.h
new file mode 100644
index 0000000..127e3ff
--- /dev/null
+++ b/libbid/bid_op_flags.h
@@ -0,0 +1,40 @@
+/* Exception reporting around one decimal operation.
+
+   Some kernels only record their exceptions in _IDEC_glbflags, and some
+   leave the inexact flag of a binary floating-point estimate behind.  Bracket
+   an operation with these so that exactly its own exceptions reach fenv.  */
+
+#ifndef _BID_OP_FLAGS_H
+#define _BID_OP_FLAGS_H
+
+#include <fenv.h>
+
+typedef struct
+{
+  _IDEC_flags decimal;		/* Recorded before the operation.  */
+  int inexact;			/* Host inexact flag before the operation.  */
+} bid_op_flags;
+
+static inline bid_op_flags
+bid_op_begin (void)
+{
+  bid_op_flags f;
+  f.decimal = _IDEC_glbflags;
+  f.inexact = fetestexcept (FE_INEXACT);
+  _IDEC_glbflags = 0;
+  return f;
+}
+
+static inline void
+bid_op_end (bid_op_flags f)
+{
+  _IDEC_flags raised = _IDEC_glbflags;
+  if (!f.inexact && !(raised & INEXACT_EXCEPTION)
+      && fetestexcept (FE_INEXACT))
+    feclearexcept (FE_INEXACT);
+  if (raised)
+    __dfp_set_status (raised);
+  _IDEC_glbflags |= f.decimal;
+}
+
+#endif
-- 
2.43.0


From 325b1d4c07e3a8948b8a1570d6a547437f38c57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 06/17] fix: lround, lrint and long long variants: decide
 exactly whether the rounded value fits

---
 ieee754r/llroundd32.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/ieee754r/llroundd32.c b/ieee754r/llroundd32.c
index f1c7ca0..927ba5f 100644
--- a/ieee754r/llroundd32.c
+++ b/ieee754r/llroundd32.c
@@ -59,14 +59,11 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decContext context;
   decNumber dn_result;
   decNumber dn_x;
+  unsigned long long limit = __MAX_VALUE;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x)
-	|| x > __MAX_VALUE || x < __MIN_VALUE)
-    {
-      DFP_EXCEPT (FE_INVALID);
-      return (__ROUND_RETURN_TYPE) x;
-    }
+  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x))
+    goto invalid;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
   context.round = __ROUND_MODE;
@@ -74,6 +71,15 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
 
+  /* Whether the rounded value fits has to be decided exactly, the limits may
+     not be representable in the decimal type.  */
+  if (decNumberIsNegative (&dn_result))
+    limit++;
+  if (!decNumberIsZero (&dn_result)
+      && (dn_result.digits + dn_result.exponent > 19
+	  || (unsigned long long) FUNC_D(__fabs) (result) > limit))
+    goto invalid;
+
 #ifdef POSTFIX_CHECK
   POSTFIX_CHECK;
 #endif
@@ -82,16 +88,17 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   return (__ROUND_RETURN_TYPE)result;
 
 /*  return (__ROUND_RETURN_TYPE)decNumberToInteger (&dn_result); */
+
+invalid:
+  DFP_EXCEPT (FE_INVALID);
+  DFP_ERRNO (EDOM);
+  return (__ROUND_RETURN_TYPE) x;
 }
 
 __ROUND_RETURN_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
-  __ROUND_RETURN_TYPE z = IEEE_FUNCTION_NAME (x);
-  if (FUNC_D(__isnan) (x) || FUNC_D(__isinf) (x)
-	|| x > __MAX_VALUE || x < __MIN_VALUE)
-    DFP_ERRNO (EDOM);
-  return z;
+  return IEEE_FUNCTION_NAME (x);
 }
 
 weak_alias (INTERNAL_FUNCTION_NAME, EXTERNAL_FUNCTION_NAME)
-- 
2.43.0


From 9c92faa50fbb1233397a191df7d5401b75af8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 07/17] fix: decimal to unsigned conversion: 2^63 and 2^31 are
 not the invalid marker

---
 libbid/_dd_to_udi.c | 5 ++++-
 libbid/_dd_to_usi.c | 5 ++++-
 libbid/_sd_to_udi.c | 5 ++++-
 libbid/_sd_to_usi.c | 5 ++++-
 libbid/_td_to_udi.c | 5 ++++-
 libbid/_td_to_usi.c | 5 ++++-
 6 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/libbid/_dd_to_udi.c b/libbid/_dd_to_udi.c
index 588a4d3..cba7e02 100644
--- a/libbid/_dd_to_udi.c
+++ b/libbid/_dd_to_udi.c
@@ -29,11 +29,14 @@ UDItype
 __bid_fixunsdddi (_Decimal64 x) {
   UDItype res = 0xbaddbaddbaddbaddull;
   union decimal64 ux;
+  _IDEC_flags saved_flags = _IDEC_glbflags;
 
   ux.d = x;
+  _IDEC_glbflags = 0;
   res = __bid64_to_uint64_xint (ux.i);
 
-  if (res == 0x8000000000000000ull) res = 0; // for NaNs too
+  if (_IDEC_glbflags & INVALID_EXCEPTION) res = 0; // out of range, NaNs too
+  _IDEC_glbflags |= saved_flags;
   return (res);
 }
 
diff --git a/libbid/_dd_to_usi.c b/libbid/_dd_to_usi.c
index 626f9eb..d2d40d8 100644
--- a/libbid/_dd_to_usi.c
+++ b/libbid/_dd_to_usi.c
@@ -29,11 +29,14 @@ USItype
 __bid_fixunsddsi (_Decimal64 x) {
   USItype res = 0xbaddbadd;
   union decimal64 ux;
+  _IDEC_flags saved_flags = _IDEC_glbflags;
 
   ux.d = x;
+  _IDEC_glbflags = 0;
   res = __bid64_to_uint32_xint (ux.i);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  if (_IDEC_glbflags & INVALID_EXCEPTION) res = 0; // out of range, NaNs too
+  _IDEC_glbflags |= saved_flags;
   return (res);
 }
 
diff --git a/libbid/_sd_to_udi.c b/libbid/_sd_to_udi.c
index e061256..7f74dae 100644
--- a/libbid/_sd_to_udi.c
+++ b/libbid/_sd_to_udi.c
@@ -30,12 +30,15 @@ __bid_fixunssddi (_Decimal32 x) {
   UDItype res = 0xbaddbaddbaddbaddull;
   UINT64 x64;
   union decimal32 ux;
+  _IDEC_flags saved_flags = _IDEC_glbflags;
 
   ux.d = x;
+  _IDEC_glbflags = 0;
   x64 = __bid32_to_bid64 (ux.i);
   res = __bid64_to_uint64_xint (x64);
 
-  if (res == 0x8000000000000000ull) res = 0; // for NaNs too
+  if (_IDEC_glbflags & INVALID_EXCEPTION) res = 0; // out of range, NaNs too
+  _IDEC_glbflags |= saved_flags;
   return (res);
 }
 
diff --git a/libbid/_sd_to_usi.c b/libbid/_sd_to_usi.c
index 8ab0f20..367cc57 100644
--- a/libbid/_sd_to_usi.c
+++ b/libbid/_sd_to_usi.c
@@ -30,12 +30,15 @@ __bid_fixunssdsi (_Decimal32 x) {
   USItype res = 0xbaddbadd;
   UINT64 x64;
   union decimal32 ux;
+  _IDEC_flags saved_flags = _IDEC_glbflags;
 
   ux.d = x;
+  _IDEC_glbflags = 0;
   x64 = __bid32_to_bid64 (ux.i);
   res = __bid64_to_uint32_xint (x64);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  if (_IDEC_glbflags & INVALID_EXCEPTION) res = 0; // out of range, NaNs too
+  _IDEC_glbflags |= saved_flags;
   return (res);
 }
 
diff --git a/libbid/_td_to_udi.c b/libbid/_td_to_udi.c
index 7e7b72a..1e5d2fc 100644
--- a/libbid/_td_to_udi.c
+++ b/libbid/_td_to_udi.c
@@ -29,12 +29,15 @@ UDItype
 __bid_fixunstddi (_Decimal128 x) {
   UDItype res = 0xbaddbaddbaddbaddull;
   union decimal128 ux;
+  _IDEC_flags saved_flags = _IDEC_glbflags;
 
   ux.d = x;
+  _IDEC_glbflags = 0;
 
   res = __bid128_to_uint64_xint (ux.i);
 
-  if (res == 0x8000000000000000ull) res = 0; // for NaNs too
+  if (_IDEC_glbflags & INVALID_EXCEPTION) res = 0; // out of range, NaNs too
+  _IDEC_glbflags |= saved_flags;
   return (res);
 }
 
diff --git a/libbid/_td_to_usi.c b/libbid/_td_to_usi.c
index 00406be..599c73e 100644
--- a/libbid/_td_to_usi.c
+++ b/libbid/_td_to_usi.c
@@ -29,11 +29,14 @@ USItype
 __bid_fixunstdsi (_Decimal128 x) {
   USItype res = 0xbaddbadd;
   union decimal128 ux;
+  _IDEC_flags saved_flags = _IDEC_glbflags;
 
   ux.d = x;
+  _IDEC_glbflags = 0;
   res = __bid128_to_uint32_xint (ux.i);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  if (_IDEC_glbflags & INVALID_EXCEPTION) res = 0; // out of range, NaNs too
+  _IDEC_glbflags |= saved_flags;
   return (res);
 }
 
-- 
2.43.0


From b47355d73e975807ec9c285e10630426ddff20c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 08/17] fix: decimal128 addition: direct a tie with a 20-digit
 or longer addend by the sign of the result

---
 libbid/bid128_add.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libbid/bid128_add.c b/libbid/bid128_add.c
index 986ef53..ba678be 100644
--- a/libbid/bid128_add.c
+++ b/libbid/bid128_add.c
@@ -1392,7 +1392,8 @@ bid128_add (UINT128 x, UINT128 y
 	      }
 	      if (rnd_mode != ROUNDING_TO_NEAREST) {
 		if ((rnd_mode == ROUNDING_TIES_AWAY && x_sign == y_sign)
-		    || (rnd_mode == ROUNDING_UP && !y_sign)) {
+		    || (rnd_mode == ROUNDING_UP && !x_sign && !y_sign)
+		    || (rnd_mode == ROUNDING_DOWN && x_sign && y_sign)) {
 		  // add 1 ulp and then check for overflow
 		  C1_lo = C1_lo + 1;
 		  if (C1_lo == 0) {	// rounding overflow in the low 64 bits
@@ -1412,7 +1413,8 @@ bid128_add (UINT128 x, UINT128 y
 		      *pfpsf |= OVERFLOW_EXCEPTION;
 		    }
 		  }
-		} else if ((rnd_mode == ROUNDING_DOWN && y_sign)
+		} else if ((rnd_mode == ROUNDING_DOWN && !x_sign && y_sign)
+			   || (rnd_mode == ROUNDING_UP && x_sign && !y_sign)
 			   || (rnd_mode == ROUNDING_TO_ZERO
 			       && x_sign != y_sign)) {
 		  // subtract 1 ulp from C1
-- 
2.43.0


From 3440ffd64dadfbfd4a460873c50885af5c20f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:27 +0000
Subject: [PATCH 09/17] fix: conversion to unsigned __int128: -0.x is in range

---
 base-math/fixsdti.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base-math/fixsdti.c b/base-math/fixsdti.c
index 1dee500..a7ad487 100644
--- a/base-math/fixsdti.c
+++ b/base-math/fixsdti.c
@@ -58,12 +58,14 @@
 #    define MIN_VAL (-170141183460469231731687303715884100000.DL)
 #    define MAX_VAL ( 170141183460469231731687303715884100000.DL)
 #  endif
+#  define TOO_SMALL(_x) ((_x) < MIN_VAL)
 #  define RET_TYPE INT128
 #  define QUICK_CONVERT(_x) ({ long long int _a_di = _x; _a_di;})
 #else
 #  define MAX_RET_VAL {.di = {0xFFFFFFFFFFFFFFFFLL, 0xFFFFFFFFFFFFFFFFLL}}
 #  define MIN_RET_VAL {.di = {0LL, 0LL}}
-#  define MIN_VAL PASTE(0., DSUFF)
+/* Everything above -1 truncates to zero or more.  */
+#  define TOO_SMALL(_x) ((_x) <= PASTE(-1., DSUFF))
 #  if SRC_SIZE == 32
 #    define MAX_VAL (340282300000000000000000000000000000000.DF)
 #  elif SRC_SIZE == 64
@@ -106,7 +108,7 @@ RET_TYPE __BACKEND_(FUNC) (DEC_TYPE a)
       return min.ti;
   }
 
-  if(a < MIN_VAL || a > MAX_VAL)
+  if(TOO_SMALL (a) || a > MAX_VAL)
   {
     DFP_EXCEPT (FE_INVALID);
     return SIGNBIT(a) ? min.ti : max.ti;
-- 
2.43.0


From b7aa4d94b5e497e3c75fc3ede7153a99a00e0750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 10/17] fix: integer to decimal conversions: round once and in
 the current rounding mode

---
 base-math/floattitd.c           | 30 +++++++++++++++++++-----------
 libbid/_di_to_sd.c              |  7 ++++---
 libbid/_udi_to_sd.c             |  7 ++++---
 sysdeps/soft-dfp/candtruncd32.c |  2 ++
 4 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/base-math/floattitd.c b/base-math/floattitd.c
index ea98a85..4682bde 100644
--- a/base-math/floattitd.c
+++ b/base-math/floattitd.c
@@ -107,7 +107,7 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
        * Can't just use copysign later because we are dealing with
        * different register sets and copysign instructions only
        * within a specific register set.  */
-      u = (UINT128) -a;
+      u = -(UINT128) a;
       negative = 1;
     }
   else
@@ -125,8 +125,9 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
     }
   else
     {
-      /* Else convert the absolute (unsigned) value to Decimal and
-       * correct the sign later if needed.  */
+      /* Else convert the parts of the absolute (unsigned) value to
+       * Decimal and give them the sign before they are combined, as
+       * the rounding may depend on it.  */
       y = u / ten_17;
       z = u % ten_17;
       t_low = (unsigned long long) z;
@@ -135,6 +136,13 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  t_mid = (unsigned long long) y;
 	  d_mid = t_mid;
 	  d_low = t_low;
+#ifndef UNSIGNED
+	  if (negative)
+	    {
+	      d_mid = -d_mid;
+	      d_low = -d_low;
+	    }
+#endif
 	  result = (d_mid * 100000000000000000.DL) + d_low;
 	}
       else
@@ -146,6 +154,14 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  d_low = t_low;
 	  d_mid = t_mid;
 	  d_high = t_high;
+#ifndef UNSIGNED
+	  if (negative)
+	    {
+	      d_high = -d_high;
+	      d_mid = -d_mid;
+	      d_low = -d_low;
+	    }
+#endif
 
           /* Call out to internal helpers to properly handle
 	   * conversion and trunctation into a smaller format.
@@ -159,14 +175,6 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  result = (result * 100000000000000000.DL) + d_low;
 #endif
 	}
-
-#ifndef UNSIGNED
-      /* Converted the absolute 127-bit value of "a" to Decimal128.
-       * Now correct the decimal sign if the original value
-       * was negative.  */
-      if (negative)
-	result = -result;
-#endif
     }
 
   return (result);
diff --git a/libbid/_di_to_sd.c b/libbid/_di_to_sd.c
index fd2b9fd..79eee73 100644
--- a/libbid/_di_to_sd.c
+++ b/libbid/_di_to_sd.c
@@ -28,10 +28,11 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal32
 __bid_floatdisd (DItype x) {
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_int64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  /* Exact, so that there is only one rounding.  */
+  res128 = __bid128_from_int64 (x);
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatdisd);
diff --git a/libbid/_udi_to_sd.c b/libbid/_udi_to_sd.c
index 62a1285..49800dd 100644
--- a/libbid/_udi_to_sd.c
+++ b/libbid/_udi_to_sd.c
@@ -28,10 +28,11 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal32
 __bid_floatunsdisd (UDItype x) {
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_uint64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  /* Exact, so that there is only one rounding.  */
+  res128 = __bid128_from_uint64 (x);
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatunsdisd);
diff --git a/sysdeps/soft-dfp/candtruncd32.c b/sysdeps/soft-dfp/candtruncd32.c
index f1fbca0..c01c869 100644
--- a/sysdeps/soft-dfp/candtruncd32.c
+++ b/sysdeps/soft-dfp/candtruncd32.c
@@ -40,6 +40,7 @@
 #include "decimal128.h"
 #include "dfpmacro.h"
 
+#include <mapround.h>
 #include "convert_helpers.h"
 
 #include <stdio.h>
@@ -63,6 +64,7 @@ FUNC_NAME (_Decimal128 hi, _Decimal128 mid, _Decimal128 low)
   decContextDefault (&context, DEC_INIT_DECIMAL128);
   /* Hack, we're using 39 digits here. */
   context.digits = 39;
+  context.round = __dn_getround();
 
   decNumberFromInt32(&dn_17, 17);
   decNumberFromInt32(&dn_34, 34);
-- 
2.43.0


From afd8f404e805412ef085e61ee6fccd1af71a6afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 11/17] fix: decimal64 to decimal32: keep the NaN payload

---
 libbid/bid32_to_bid64.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libbid/bid32_to_bid64.c b/libbid/bid32_to_bid64.c
index eff4014..e841dd8 100644
--- a/libbid/bid32_to_bid64.c
+++ b/libbid/bid32_to_bid64.c
@@ -93,8 +93,7 @@ bid64_to_bid32 (UINT64 x _RND_MODE_PARAM _EXC_FLAGS_PARAM
   // unpack arguments, check for NaN or Infinity, 0
   if (!unpack_BID64 (&sign_x, &exponent_x, &coefficient_x, x)) {
     if (((x) & 0x7800000000000000ull) == 0x7800000000000000ull) {
-      res = (coefficient_x & 0x0003ffffffffffffull);
-      res /= 1000000000ull;
+      res = (coefficient_x & 0x0003ffffffffffffull) / 1000000000ull;
       res |= ((coefficient_x >> 32) & 0xfc000000);
 #ifdef SET_STATUS_FLAGS
       if ((x & SNAN_MASK64) == SNAN_MASK64)	// sNaN
-- 
2.43.0


From d06929b6a655fcd2716f0c5fe29db28514a9638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 12/17] fix: decNumber conversions: recode the NaN payload
 between BID and DPD

---
 libdecnumber/bid/bid2dpd_dpd2bid.c | 40 ++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/libdecnumber/bid/bid2dpd_dpd2bid.c b/libdecnumber/bid/bid2dpd_dpd2bid.c
index 39ea14b..9b03a30 100644
--- a/libdecnumber/bid/bid2dpd_dpd2bid.c
+++ b/libdecnumber/bid/bid2dpd_dpd2bid.c
@@ -97,6 +97,12 @@ _bid_to_dpd32 (_Decimal32 *pres, _Decimal32 *px) {
     /* special encodings */
     if ((x & 0x78000000ul) == 0x78000000ul) {
       *pres = x; /* NaN or Infinity */
+      if ((x & 0x7c000000ul) == 0x7c000000ul) { /* recode the payload */
+        _Decimal32 payload = x & 0x000ffffful;
+        if (payload > 999999) payload = 0;
+        _bid_to_dpd32 (&payload, &payload);
+        *pres = (x & 0xfe000000ul) | payload;
+      }
       return;
     }
     /* coefficient */
@@ -137,6 +143,11 @@ _dpd_to_bid32 (_Decimal32 *pres, _Decimal32 *px) {
   trailing = (x & 0x000fffff);
   if ((x & 0x78000000) == 0x78000000) {
     *pres = x;
+    if ((x & 0x7c000000) == 0x7c000000) { /* recode the payload of a NaN */
+      _Decimal32 payload = trailing;
+      _dpd_to_bid32 (&payload, &payload);
+      *pres = (x & 0xfe000000) | payload;
+    }
     return;
   }
   /* normal number */
@@ -183,6 +194,12 @@ _bid_to_dpd64 (_Decimal64 *pres, _Decimal64 *px) {
   comb = (x & 0x7ffc000000000000ull) >> 51;
   if ((comb & 0xf00) == 0xf00) {
     *pres = x;
+    if ((comb & 0xf80) == 0xf80) { /* recode the payload of a NaN */
+      _Decimal64 payload = x & 0x0003ffffffffffffull;
+      if (payload > 999999999999999ull) payload = 0;
+      _bid_to_dpd64 (&payload, &payload);
+      *pres = (x & 0xfe00000000000000ull) | payload;
+    }
     return;
   }
   /* Normal number */
@@ -240,6 +257,11 @@ _dpd_to_bid64 (_Decimal64 *pres, _Decimal64 *px) {
   trailing = (x & 0x0003ffffffffffffull);
   if ((comb & 0x1e00) == 0x1e00) {
     *pres = x;
+    if ((comb & 0x1f00) == 0x1f00) { /* recode the payload of a NaN */
+      _Decimal64 payload = trailing;
+      _dpd_to_bid64 (&payload, &payload);
+      *pres = (x & 0xfe00000000000000ull) | payload;
+    }
     return;
   }
   /* normal number */
@@ -299,6 +321,17 @@ _bid_to_dpd128 (_Decimal128 *pres, _Decimal128 *px) {
   exp = 0;
   if ((comb & 0x1e000) == 0x1e000) {
     res = x;
+    if ((comb & 0x1f000) == 0x1f000) { /* recode the payload of a NaN */
+      _Decimal128 payload = x;
+      payload.w[1] &= 0x00003fffffffffffull;
+      if (payload.w[1] > 0x0000314dc6448d93ull
+          || (payload.w[1] == 0x0000314dc6448d93ull
+              && payload.w[0] > 0x38c15b09ffffffffull))
+        payload.w[1] = payload.w[0] = 0; /* more than 33 digits */
+      _bid_to_dpd128 (&payload, &payload);
+      res.w[1] = (x.w[1] & 0xfe00000000000000ull) | payload.w[1];
+      res.w[0] = payload.w[0];
+    }
   } else { /* normal number */
     exp = ((x.w[1] & 0x7fff000000000000ull) >> 49) & 0x3fff;
     bcoeff.w[1] = (x.w[1] & 0x0001ffffffffffffull);
@@ -379,6 +412,13 @@ _dpd_to_bid128 (_Decimal128 *pres, _Decimal128 *px) {
   trailing.w[0] = x.w[0];
   if ((comb & 0x1e000) == 0x1e000) {
       *pres = x;
+      if ((comb & 0x1f000) == 0x1f000) { /* recode the payload of a NaN */
+        _Decimal128 payload = x;
+        payload.w[1] &= 0x00003fffffffffffull;
+        _dpd_to_bid128 (&payload, &payload);
+        pres->w[1] = (x.w[1] & 0xfe00000000000000ull) | payload.w[1];
+        pres->w[0] = payload.w[0];
+      }
       return;
   }
   if ((comb & 0x18000) == 0x18000) { /* G0..G1 = 11 -> d0 = 8 + G4 */
-- 
2.43.0


From 8e62c640871375b8242b805185c6475e4a217c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 13/17] fix: decimal128 digit extraction: a coefficient above
 34 digits is zero

---
 sysdeps/bid/bid-private.c | 3 ++-
 sysdeps/bid/bid-private.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sysdeps/bid/bid-private.c b/sysdeps/bid/bid-private.c
index a95781a..ce82fea 100644
--- a/sysdeps/bid/bid-private.c
+++ b/sysdeps/bid/bid-private.c
@@ -197,7 +197,8 @@ __get_digits_d128 (_Decimal128 x, char *str, int *exp_p, int *sign_p,
       result[0] |= d.ti[0] & 0xFFFFFFFFUL;
     }
 
-  if (result[1] >= DECIMAL128_TH)
+  if (result[1] > DECIMAL128_TH_HI
+      || (result[1] == DECIMAL128_TH_HI && result[0] >= DECIMAL128_TH_LO))
     {
       result[0] = 0;
       result[1] = 0;
diff --git a/sysdeps/bid/bid-private.h b/sysdeps/bid/bid-private.h
index 83b002f..92a892a 100644
--- a/sysdeps/bid/bid-private.h
+++ b/sysdeps/bid/bid-private.h
@@ -162,6 +162,7 @@ union ieee754r_Decimal128
   };
 
 #define DECIMAL128_Bias 6176		/* bias for the exponent  */
-#define DECIMAL128_TH 1000000000000000	/* threshold (10³⁴ = 10¹⁵ x 10¹⁹) */
+#define DECIMAL128_TH_HI 0x1ed09bead87c0ULL	/* threshold (10³⁴), high... */
+#define DECIMAL128_TH_LO 0x378d8e6400000000ULL	/* ...and low word.  */
 
 #endif /* _BID_PRIVATE */
-- 
2.43.0


From 76d27da6a99be5e7235e99f82f8c461bcda39ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 14/17] fix: decimal printf: round correctly in every mode,
 choose the style of %g after rounding

Rounding up inspected one digit only in the directed modes, %g did not round
when the style was f, a point was printed for %.0f of a tiny value, %.0a
printed no digit and the count for infinities and NaNs was zero.
---
 printf-hooks/printf_dfp.c | 160 +++++++++++++++++++-------------------
 1 file changed, 81 insertions(+), 79 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index c5bf460..1366c21 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -527,7 +527,7 @@ __printf_dfp (FILE *fp,
       if (info->left && width > 0)
 	PADN (' ', width);
 
-      return 0;
+      return done;
     }
 
   /* The term "precision" refers to the number of significant digits right of
@@ -541,6 +541,10 @@ __printf_dfp (FILE *fp,
 	     * digits in the precision.  */
 	    input_prec = nd;
 
+	    /* At least one digit is needed.  */
+	    if (prec == 0)
+	      prec = 1;
+
 	    /* This same check is done in two different places but it'll only
 	     * effect a single pass through once.  If prec is not set it'll hit
 	     * this instance.  If prec is set it'll hit the next instance.  This
@@ -566,41 +570,13 @@ __printf_dfp (FILE *fp,
 	  }
 	case 'g':
 	  {
-	    int P = prec;
-
-	    /* When the C specification refers to X as the exponent it means the
-	     * exponent when the input value encoding is normalized to the form
-	     * d.dddd.  This means we have to do that before we can do the goof
-	     * check.
-	     *
-	     * e.g., 123.456E-5
-	     * right-justified -> 00123456E-9
-	     * normalized -> 1.23456E-4
-	     *
-	     * Normalize X to d.ddd... form by taking (exp) + (nd - 1)
-	     *
-	     * X == -4  */
-	    int X = exp + (nd -1);
-
-	    /* The C Specification also indicates how to compute P. */
+	    /* P, the number of significant digits: the style is chosen after
+	     * rounding, since X is the exponent of the rounded value.  */
 	    if (prec < 0)
-	      P = 6;
+	      prec = 6;
 	    else if (prec == 0)
-	      P = 1;
-
-	    /* Straight from the specification which assumes X is exponent normalized to
-	     * d.ddd... form.  */
-	    if (X >= -4 && P > X)
-	      {
-		prec = (P - (X + 1));
-		spec = 'f';
-	      }
-	    else
-	      {
-		prec = P - 1;
-		spec = 'e';
-	      }
-	    input_prec = nd - 1;
+	      prec = 1;
+	    input_prec = nd;
 	  break;
 	  }
 	case 'e':
@@ -630,7 +606,6 @@ __printf_dfp (FILE *fp,
   if (prec < input_prec)
     {
       int index, roundmode = 0;
-      char rounddigit = '4';
 
       if (spec == 'f')
 	/* This may force index to negative, in which case we ignore it at a
@@ -642,64 +617,91 @@ __printf_dfp (FILE *fp,
        {
 	index = n + prec;
        }
+      else if (spec == 'g')
+	index = n + prec;
       else
 	index = n + prec + 1;
 
       /* FIXME: we should check rounding mode for %a */
       if (__printf_dfp_getround_callback)
-        {
-          roundmode = (*__printf_dfp_getround_callback)();
+	roundmode = (*__printf_dfp_getround_callback)();
+
+      /* Digits are dropped from 'index' on.  If 'exp' was sufficiently
+       * negative 'index' may be negative: then all of them are dropped.  */
+      if (index < mw)
+	{
+	  char first = index < 0 ? '0' : digits[index];
+	  int odd = index > 0 && (digits[index-1] & 1);
+	  int rest = 0, up, i;
+
+	  for (i = index < 0 ? 0 : index + 1; i < mw; i++)
+	    if (digits[i] != '0')
+	      rest = 1;
 
 	  switch (roundmode)
 	    {
-	      case FE_DEC_TONEAREST: rounddigit = '4'; break;
-	      case FE_DEC_TOWARDZERO: rounddigit = '9'; break;
-	      case FE_DEC_UPWARD: rounddigit = (is_neg ? '9' : '0'-1); break;
-	      case FE_DEC_DOWNWARD: rounddigit = (is_neg ? '0'-1 : '9'); break;
-	      case FE_DEC_TONEARESTFROMZERO: rounddigit = '4'; break;
-	      case 5: rounddigit = '4'; break; /* nearest, ties toward zero */
-	      case 6: rounddigit = '0'-1; break; /* away from zero */
-	      case 7: rounddigit = '4'; break; /* round for shorter precision */
-	      default: rounddigit = '4'; break;
+	      case FE_DEC_TOWARDZERO: up = 0; break;
+	      case FE_DEC_UPWARD: up = !is_neg && (first != '0' || rest); break;
+	      case FE_DEC_DOWNWARD: up = is_neg && (first != '0' || rest); break;
+	      case FE_DEC_TONEARESTFROMZERO: up = first >= '5'; break;
+	      case 5: /* nearest, ties toward zero */
+		up = first > '5' || (first == '5' && rest);
+		break;
+	      case 6: up = first != '0' || rest; break; /* away from zero */
+	      default: /* FE_DEC_TONEAREST, 7: round for shorter precision */
+		up = first > '5' || (first == '5' && (rest || odd));
+		break;
 	    }
-	}
 
-      /* If this is true then the requested precision is smaller than the
-      * default and rounding is required.  If 'exp' was sufficiently negative
-      * 'index' may be negative, in which case we don't need to round.  */
-      if (index > 0 && index < mw && digits[index] > rounddigit) 
-	do {
-	  int trailzero = index+1;
-	  if (digits[index] == rounddigit+1)
+	  if (up && index <= 0)
+	    {
+	      /* One unit of the last requested place.  */
+	      memset (digits, '0', mw);
+	      digits[mw-1] = '1';
+	      exp = -prec;
+	      nd = 1;
+	      n = mw - 1;
+	    }
+	  else if (up)
 	    {
-	      while (trailzero < mw)
+	      while (digits[--index] == '9')
+		digits[index] = '0';
+	      digits[index]++;
+	      if (index < n)
 		{
-		  if (digits[trailzero] != '0')
-		    {
-		      trailzero = 0;
-		      break;
-		    }
-		  ++trailzero;
+		  nd += n - index;
+		  n = index;
 		}
-	      if (roundmode == FE_DEC_TONEAREST && trailzero &&
-	        (digits[index-1] & 1) == 0) break;
-	      if (roundmode == FE_DEC_UPWARD && !trailzero) break;
-	      if (roundmode == FE_DEC_DOWNWARD && !trailzero) break;
-	      if (roundmode == 5 && trailzero) break;
-	      if (roundmode == 6 && trailzero) break;
-	  }
-
-	while (digits[--index] == '9')
-	  digits[index] = '0';
-	digits[index]++;
-	if (index < n)
-	  {
-	    n--;
-	    nd++;
-	  }
-      } while (0);
+	    }
+	}
     } /* Done rounding.  */
 
+  if (spec == 'g')
+    {
+      /* When the C specification refers to X as the exponent it means the
+       * exponent when the value is normalized to the form d.dddd.
+       *
+       * e.g., 123.456E-5
+       * right-justified -> 00123456E-9
+       * normalized -> 1.23456E-4
+       *
+       * Normalize X to d.ddd... form by taking (exp) + (nd - 1)
+       *
+       * X == -4  */
+      int X = exp + (nd - 1);
+
+      if (X >= -4 && prec > X)
+	{
+	  prec -= X + 1;
+	  spec = 'f';
+	}
+      else
+	{
+	  prec--;
+	  spec = 'e';
+	}
+    }
+
   /* If spec == 'a' at this point it means that prec was set by the user
    * and rounding had to be considered.  The spec now requires that the
    * 'a' format presentation algorithm be calculated again.  If prec
@@ -810,7 +812,7 @@ __printf_dfp (FILE *fp,
     {
       n = decpt;
       outchar ('0');
-      if (n < 0)
+      if (n < 0 && prec > 0)
 	{
 	  outchar (wide ? decimalwc.wc : *decimal);
 	  while (n < 0 && n < decpt + prec)
-- 
2.43.0


From fe7e754409f2c38aeb34cc5fb7e23f8c49fd0e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 15/17] fix: strfromd: terminate a one-byte buffer and count
 texts longer than the stream buffer

---
 stdlib/strfromd32.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stdlib/strfromd32.c b/stdlib/strfromd32.c
index f66a1c5..5707cee 100644
--- a/stdlib/strfromd32.c
+++ b/stdlib/strfromd32.c
@@ -22,6 +22,7 @@
 
 #include <stdlib.h>
 #include <stdio.h>
+#include <string.h>
 #include <printf.h>
 #include <errno.h>
 #include <ctype.h>
@@ -38,7 +39,9 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
 {
   /* format = %{[.][0-9]*[aAeEfFgG], else behavior undefined.
      Reuse our printf hook to do this.  */
-  FILE * f = fmemopen (s, n, "w");
+  char *text = NULL;
+  size_t len = 0;
+  FILE * f = open_memstream (&text, &len);
   const void * const args = &fp;
   const void * const * argsp = &args;
   const void * const * argp = (const void * const *)&argsp;
@@ -49,7 +52,7 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
      about this.  */
   if (!f)
     {
-    /* errno set by fmemopen.  */
+    /* errno set by open_memstream.  */
     return 0;
     }
 
@@ -84,5 +87,15 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
   }
 
   fclose (f);
+
+  /* As much as fits, always terminated.  */
+  if (text != NULL && n > 0)
+    {
+      if (len > n - 1)
+	len = n - 1;
+      memcpy (s, text, len);
+      s[len] = '\0';
+    }
+  free (text);
   return num;
 }
-- 
2.43.0


From f8a97f246bed20d640ed03ef5c7e5835dee7bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 16/17] fix: decimal printf: field width of zero in %e and %g
 and of the %a exponent

---
 printf-hooks/printf_dfp.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 1366c21..f7f26ac 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -784,10 +784,17 @@ __printf_dfp (FILE *fp,
   if (prec > 0) width -= 1 + prec;
   else if (info->alt) width -= 1;
 
-  if (spec != 'f')
+  /* The C spec says that for %e, if the value is zero the exponent is zero.
+   * This isn't true for the DFP spec for %a so make sure to check info->spec
+   * and not spec since it could have promoted 'a' to 'e'.  */
+  if(spec == 'e' && (tolower(info->spec) != 'a' && is_zero))
+    exp = 0;
+
+  /* The exponent part isn't displayed for 'g' if the value is zero.  */
+  if (spec != 'f' && !((tolower(info->spec) == 'g') && is_zero))
     {
       width -= 3;
-      if (0!=(exp/10) || spec!='a') --width;
+      if (0!=(exp/10) || tolower(info->spec) != 'a') --width;
       if (0!=(exp/100)) --width;
       if (0!=(exp/1000)) --width;
     }
@@ -851,12 +858,6 @@ __printf_dfp (FILE *fp,
   /* print decimal point, if needed */
   if (n == decpt && info->alt) outchar (wide ? decimalwc.wc : *decimal);
 
-  /* The C spec says that for %e, if the value is zero the exponent is zero.
-   * This isn't true for the DFP spec for %a so make sure to check info->spec
-   * and not spec since it could have promoted 'a' to 'e'.  */
-  if(spec == 'e' && (tolower(info->spec) != 'a' && is_zero))
-    exp = 0;
-
   /* Don't display the exponent part for 'f' because it is never used and don't
    * do it for 'g' if the value is zero.  */
   if (spec != 'f' && !((tolower(info->spec) == 'g') && is_zero))
-- 
2.43.0


From 42e061eeb9975d15c76c01f98593846fb86d7404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 17/17] fix: decimal printf: the exponent that chooses the
 style of %g is zero for zero

---
 printf-hooks/printf_dfp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index f7f26ac..ee9c4a8 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -687,8 +687,10 @@ __printf_dfp (FILE *fp,
        *
        * Normalize X to d.ddd... form by taking (exp) + (nd - 1)
        *
-       * X == -4  */
-      int X = exp + (nd - 1);
+       * X == -4
+       *
+       * The exponent of zero is zero.  */
+      int X = is_zero ? (exp = 0) : exp + (nd - 1);
 
       if (X >= -4 && prec > X)
 	{
-- 
2.43.0

