From 07ce459f85fdc1dd4ea9fd0656e0ffd203dd1809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 01/34] fix: i64.div_u traps on quotients of 2^63 and above

The unsigned quotient was stored through the signed constructor.
---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index ddb7bdd..78d9b63 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2307,7 +2307,7 @@ class Machine:
                 case pywasm.opcode.i64_div_u:
                     b = self.stack.value.pop().into_u64()
                     a = self.stack.value.pop().into_u64()
-                    c = ValInst.from_i64(pywasm.arith.u64.div(a, b))
+                    c = ValInst.from_u64(pywasm.arith.u64.div(a, b))
                     self.stack.value.append(c)
                 case pywasm.opcode.i64_rem_s:
                     b = self.stack.value.pop().into_i64()
-- 
2.43.0


From cf456e2199950a7f6f4ca006a24342d49d90d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 02/34] fix: ceil, floor, trunc and nearest lose the sign of a
 zero result

Rounding to an int drops the sign: ceil(-0.5) must be -0.0.
---
 pywasm/core.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 78d9b63..c2dbb6f 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2371,22 +2371,22 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_ceil:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.ceil(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.ceil(a), a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_floor:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.floor(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.floor(a), a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_trunc:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.trunc(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.trunc(a), a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_nearest:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(round(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(round(a), a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_sqrt:
@@ -2444,22 +2444,22 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f64_ceil:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.ceil(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.ceil(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_floor:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.floor(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.floor(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_trunc:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.trunc(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.trunc(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_nearest:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(round(a))
+                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(round(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_sqrt:
@@ -3368,22 +3368,22 @@ class Machine:
                     self.stack.value.append(e)
                 case pywasm.opcode.f32x4_ceil:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.ceil(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.ceil(e), e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_floor:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.floor(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.floor(e), e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_trunc:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.trunc(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.trunc(e), e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_nearest:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(round(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(round(e), e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_shl:
@@ -3439,12 +3439,12 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_ceil:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.ceil(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.ceil(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64x2_floor:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.floor(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.floor(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_min_s:
@@ -3473,7 +3473,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_trunc:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.trunc(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.trunc(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_avgr_u:
@@ -3614,7 +3614,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_nearest:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(round(e)) for e in a]
+                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(round(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i16x8_mul:
-- 
2.43.0


From 8e80ea95ddfccbad725cf593f55580b86a3a1963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 03/34] fix: f64 rounding instructions return signaling NaNs
 unchanged

The result of ceil, floor, trunc and nearest on a NaN must be a quiet NaN.
---
 pywasm/core.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index c2dbb6f..0d99da1 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2444,22 +2444,22 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f64_ceil:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.ceil(a), a)
+                    b = a + a if math.isnan(a) or math.isinf(a) else math.copysign(math.ceil(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_floor:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.floor(a), a)
+                    b = a + a if math.isnan(a) or math.isinf(a) else math.copysign(math.floor(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_trunc:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(math.trunc(a), a)
+                    b = a + a if math.isnan(a) or math.isinf(a) else math.copysign(math.trunc(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_nearest:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else math.copysign(round(a), a)
+                    b = a + a if math.isnan(a) or math.isinf(a) else math.copysign(round(a), a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_sqrt:
@@ -3439,12 +3439,12 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_ceil:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.ceil(e), e) for e in a]
+                    b = [e + e if math.isnan(e) or math.isinf(e) else math.copysign(math.ceil(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64x2_floor:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.floor(e), e) for e in a]
+                    b = [e + e if math.isnan(e) or math.isinf(e) else math.copysign(math.floor(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_min_s:
@@ -3473,7 +3473,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_trunc:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(math.trunc(e), e) for e in a]
+                    b = [e + e if math.isnan(e) or math.isinf(e) else math.copysign(math.trunc(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_avgr_u:
@@ -3614,7 +3614,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_nearest:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else math.copysign(round(e), e) for e in a]
+                    b = [e + e if math.isnan(e) or math.isinf(e) else math.copysign(round(e), e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i16x8_mul:
-- 
2.43.0


From 5c143d11f9265d11328f4af9bebceedbe468072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 04/34] fix: min and max ignore the sign of zeros and let
 signaling NaNs through

min(0.0, -0.0) must be -0.0, max(-0.0, 0.0) must be 0.0, and a NaN result must be quiet.
---
 pywasm/arith.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index ce54dee..a1a7220 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -194,20 +194,20 @@ class F64:
         return c
 
     def min(self, a: float, b: float) -> float:
-        c = min(a, b)
-        if math.isnan(a):
-            c = a
-        if math.isnan(b):
-            c = b
-        return c
+        if math.isnan(a) or math.isnan(b):
+            return a + b
+        if a == b:
+            # Negative zero is smaller than positive zero.
+            return a if math.copysign(1, a) < 0 else b
+        return min(a, b)
 
     def max(self, a: float, b: float) -> float:
-        c = max(a, b)
-        if math.isnan(a):
-            c = a
-        if math.isnan(b):
-            c = b
-        return c
+        if math.isnan(a) or math.isnan(b):
+            return a + b
+        if a == b:
+            # Positive zero is larger than negative zero.
+            return a if math.copysign(1, a) > 0 else b
+        return max(a, b)
 
 
 i8 = I(1)
-- 
2.43.0


From 991b7766bae08a45001027fa7a2c9ead599157fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 05/34] fix: f32.copysign alters the payload of a signaling NaN

Going through a Python float quietens the NaN; only the sign bit may change.
---
 pywasm/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 0d99da1..ca17885 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2428,9 +2428,10 @@ class Machine:
                     d = ValInst.from_f32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32_copysign:
-                    b = self.stack.value.pop().into_f32()
-                    a = self.stack.value.pop().into_f32()
-                    c = ValInst.from_f32(math.copysign(a, b))
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    c = ValInst(ValType.f32(), a.data.copy())
+                    c.data[3] = c.data[3] & 0x7f | b.data[3] & 0x80
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_abs:
                     a = self.stack.value.pop()
-- 
2.43.0


From 0a54a7847424999ef0b8294db0317f38cfd324e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 06/34] fix: f32x4 abs, neg, pmin and pmax alter the payload of
 signaling NaNs

These instructions return an operand lane, at most with its sign bit changed.
---
 pywasm/core.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index ca17885..5612712 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -3937,14 +3937,14 @@ class Machine:
                     d = ValInst.from_v128_u64(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_abs:
-                    a = self.stack.value.pop().into_v128_f32()
-                    b = [abs(e) for e in a]
-                    c = ValInst.from_v128_f32(b)
+                    a = self.stack.value.pop().into_v128_u32()
+                    b = [e & 0x7fffffff for e in a]
+                    c = ValInst.from_v128_u32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_neg:
-                    a = self.stack.value.pop().into_v128_f32()
-                    b = [-e for e in a]
-                    c = ValInst.from_v128_f32(b)
+                    a = self.stack.value.pop().into_v128_u32()
+                    b = [e ^ 0x80000000 for e in a]
+                    c = ValInst.from_v128_u32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_sqrt:
                     a = self.stack.value.pop().into_v128_f32()
@@ -3988,16 +3988,20 @@ class Machine:
                     d = ValInst.from_v128_f32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_pmin:
-                    b = self.stack.value.pop().into_v128_f32()
-                    a = self.stack.value.pop().into_v128_f32()
-                    c = [min(a[i], b[i]) for i in range(4)]
-                    d = ValInst.from_v128_f32(c)
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    x = a.into_v128_f32()
+                    y = b.into_v128_f32()
+                    c = [(b if y[i] < x[i] else a).data[i * 4: i * 4 + 4] for i in range(4)]
+                    d = ValInst.from_v128(bytearray().join(c))
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_pmax:
-                    b = self.stack.value.pop().into_v128_f32()
-                    a = self.stack.value.pop().into_v128_f32()
-                    c = [max(a[i], b[i]) for i in range(4)]
-                    d = ValInst.from_v128_f32(c)
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    x = a.into_v128_f32()
+                    y = b.into_v128_f32()
+                    c = [(b if y[i] > x[i] else a).data[i * 4: i * 4 + 4] for i in range(4)]
+                    d = ValInst.from_v128(bytearray().join(c))
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_abs:
                     a = self.stack.value.pop().into_v128_f64()
-- 
2.43.0


From 123f677301567227dfe527b2f27a9ec0ad21d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 07/34] fix: f32.convert_i64_s and f32.convert_i64_u round
 twice

0x7fffff4000000001 converted through f64 loses its last bit and then rounds to the wrong neighbour.
---
 pywasm/arith.py | 7 +++++++
 pywasm/core.py  | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index a1a7220..832da74 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -158,6 +158,13 @@ class F32:
     def fit(self, n: float) -> float:
         return ctypes.c_float(n).value
 
+    def from_int(self, n: int) -> float:
+        # Converting a large integer to f64 and then to f32 would round twice. Fold the bits which do not fit into an f64
+        # into a sticky bit, so that the first conversion is exact and the second one rounds correctly.
+        if abs(n) >> 53 != 0:
+            n = (n >> 11 | (n & 0x7ff != 0)) << 11
+        return self.fit(float(n))
+
     def div(self, a: float, b: float) -> float:
         return self.fit(f64.div(a, b))
 
diff --git a/pywasm/core.py b/pywasm/core.py
index 5612712..6945e74 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2576,11 +2576,11 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_convert_i64_s:
                     a = self.stack.value.pop().into_i64()
-                    b = ValInst.from_f32(float(a))
+                    b = ValInst.from_f32(pywasm.arith.f32.from_int(a))
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_convert_i64_u:
                     a = self.stack.value.pop().into_u64()
-                    b = ValInst.from_f32(float(a))
+                    b = ValInst.from_f32(pywasm.arith.f32.from_int(a))
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_demote_f64:
                     a = self.stack.value.pop().into_f64()
-- 
2.43.0


From 293b8fc00dd8aa494bd515d4ae289930c1aae92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 08/34] fix: a branch to a function's own label leaves the
 callee's frame on the frame stack

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 6945e74..82f57b6 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1764,7 +1764,7 @@ class Machine:
                 ))
                 self.stack.label.append(Label(
                     nret,
-                    len(self.stack.frame),
+                    len(self.stack.frame) - 1,
                     len(self.stack.value),
                     3,
                     func.code.expr.data,
-- 
2.43.0


From 733fdc9ae650994b662e4b4f478acef1a8400566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 09/34] fix: v128 lane and zero memory instructions accept an
 alignment larger than natural

---
 pywasm/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index 82f57b6..97b1162 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -663,48 +663,58 @@ class Inst:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 1
                 assert o.args[2] < 16
             case pywasm.opcode.v128_load16_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 2
                 assert o.args[2] < 8
             case pywasm.opcode.v128_load32_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 3
                 assert o.args[2] < 4
             case pywasm.opcode.v128_load64_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 4
                 assert o.args[2] < 2
             case pywasm.opcode.v128_store8_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 1
                 assert o.args[2] < 16
             case pywasm.opcode.v128_store16_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 2
                 assert o.args[2] < 8
             case pywasm.opcode.v128_store32_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 3
                 assert o.args[2] < 4
             case pywasm.opcode.v128_store64_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 4
                 assert o.args[2] < 2
             case pywasm.opcode.v128_load32_zero:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 3
             case pywasm.opcode.v128_load64_zero:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 4
         return o
 
 
-- 
2.43.0


From 855e5e4bc35c5050b500db3e3dce602dee03093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 10/34] fix: memory.size and memory.grow accept a nonzero
 reserved byte

---
 pywasm/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index 97b1162..43973fa 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -522,8 +522,10 @@ class Inst:
                 assert o.args[0] < 3
             case pywasm.opcode.memory_size:
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] == 0x00
             case pywasm.opcode.memory_grow:
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] == 0x00
             case pywasm.opcode.i32_const:
                 o.args.append(pywasm.leb128.i.decode_reader(r)[0])
             case pywasm.opcode.i64_const:
-- 
2.43.0


From a21f93908e6d85dfd2dc8e6d79157d88ffc97aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 11/34] fix: sections after the 32nd are silently dropped

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 43973fa..7364a9c 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1328,7 +1328,7 @@ class ModuleDesc:
         imps: typing.List[Import] = []
         exps: typing.List[ExportDesc] = []
 
-        for _ in range(32):
+        while True:
             section_id_byte = r.read(1)
             if not section_id_byte:
                 break
-- 
2.43.0


From ff16c618a40a700d887fb7c854f0f75c36920b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 12/34] fix: pass null references across the host boundary as
 None

A null funcref/externref argument or result of a host call, or result of an invocation, raised AssertionError in into_ref, and the
host had no way to pass one in.
---
 pywasm/core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 7364a9c..e73cb9d 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -205,7 +205,7 @@ class ValInst:
         return cls(type, bytearray(struct.pack('<i', n)) + bytearray([0x01]) + bytearray(cls.blen - 5))
 
     @classmethod
-    def from_all(cls, type: ValType, n: typing.Union[int, float, bytearray]) -> typing.Self:
+    def from_all(cls, type: ValType, n: typing.Union[int, float, bytearray, None]) -> typing.Self:
         match type.data:
             case 0x7f:
                 return cls.from_i32(n)
@@ -218,9 +218,9 @@ class ValInst:
             case 0x7b:
                 return cls.from_v128(n)
             case 0x70:
-                return cls.from_ref(type, n)
+                return cls.zero(type) if n is None else cls.from_ref(type, n)
             case 0x6f:
-                return cls.from_ref(type, n)
+                return cls.zero(type) if n is None else cls.from_ref(type, n)
             case _:
                 assert 0
 
@@ -279,7 +279,7 @@ class ValInst:
         assert self.data[4] == 0x01
         return self.into_i32()
 
-    def into_all(self) -> typing.Union[int, float, bytearray]:
+    def into_all(self) -> typing.Union[int, float, bytearray, None]:
         match self.type.data:
             case 0x7f:
                 return self.into_i32()
@@ -292,9 +292,9 @@ class ValInst:
             case 0x7b:
                 return self.into_v128()
             case 0x70:
-                return self.into_ref()
+                return self.into_ref() if self.data[4] != 0x00 else None
             case 0x6f:
-                return self.into_ref()
+                return self.into_ref() if self.data[4] != 0x00 else None
             case _:
                 assert 0
 
-- 
2.43.0


From 89c41bcfe6c0b585e16e1af47105f6aec590736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 13/34] fix: refuse to invoke an export that is not a function

The address of an exported table, memory or global was used as a function address.
---
 pywasm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index e73cb9d..4ba8c4e 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -4186,7 +4186,9 @@ class Runtime:
     ) -> typing.List[int | float | bytearray]:
         # Once a module has been instantiated, any exported function can be invoked externally via its function address
         # in the store and an appropriate list of argument values.
-        addr = [e for e in module.exps if e.name == func][0].data.data
+        inst = [e for e in module.exps if e.name == func][0].data
+        assert inst.kind == 0x00
+        addr = inst.data
         func = self.machine.store.func[addr]
         assert len(func.type.args) == len(args)
         args = [ValInst.from_all(a, b) for a, b in zip(func.type.args, args)]
-- 
2.43.0


From aaa8e41548d5d906bf866eeb969588ee9c8807bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 14/34] fix: reset the stack after a trap

A trap during an invocation or an instantiation left its values, labels and frames on the stack of the machine, and every later
invocation on the same runtime failed or ran on top of them.
---
 pywasm/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 4ba8c4e..1990164 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -4171,7 +4171,11 @@ class Runtime:
         extern: typing.List[Extern] = []
         for e in module.imps:
             extern.append(self.imports[e.module][e.name])
-        return self.machine.instance(module, extern)
+        try:
+            return self.machine.instance(module, extern)
+        except BaseException:
+            self.machine.stack = Stack()
+            raise
 
     def instance_from_file(self, path: str) -> ModuleInst:
         # Instantiated a module from a local file.
@@ -4192,5 +4196,10 @@ class Runtime:
         func = self.machine.store.func[addr]
         assert len(func.type.args) == len(args)
         args = [ValInst.from_all(a, b) for a, b in zip(func.type.args, args)]
-        rets = self.machine.invocate(addr, args)
+        try:
+            rets = self.machine.invocate(addr, args)
+        except BaseException:
+            # A trap aborts the computation. Nothing it left on the stack may reach the next invocation.
+            self.machine.stack = Stack()
+            raise
         return [e.into_all() for e in rets]
-- 
2.43.0


From f3804b85bb5842e232f6e9061d433c4efdcdfdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 15/34] fix: refuse host accesses outside of the linear memory
 instead of clipping or growing it

---
 pywasm/core.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 1990164..151bb5c 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -885,24 +885,25 @@ class MemInst:
         self.grow(type.limits.n)
 
     def get_i32(self, addr: int) -> int:
-        return struct.unpack('<i', self.data[addr:addr+4])[0]
+        return struct.unpack('<i', self.get(addr, 4))[0]
 
     def get_i64(self, addr: int) -> int:
-        return struct.unpack('<q', self.data[addr:addr+8])[0]
+        return struct.unpack('<q', self.get(addr, 8))[0]
 
     def get_u8(self, addr: int) -> int:
-        return self.data[addr]
+        return self.get(addr, 1)[0]
 
     def get_u16(self, addr: int) -> int:
-        return struct.unpack('<H', self.data[addr:addr+2])[0]
+        return struct.unpack('<H', self.get(addr, 2))[0]
 
     def get_u32(self, addr: int) -> int:
-        return struct.unpack('<I', self.data[addr:addr+4])[0]
+        return struct.unpack('<I', self.get(addr, 4))[0]
 
     def get_u64(self, addr: int) -> int:
-        return struct.unpack('<Q', self.data[addr:addr+8])[0]
+        return struct.unpack('<Q', self.get(addr, 8))[0]
 
     def get(self, addr: int, size: int) -> bytearray:
+        assert 0 <= addr and 0 <= size and addr + size <= len(self.data)
         return self.data[addr:addr+size].copy()
 
     def grow(self, n: int) -> None:
@@ -913,25 +914,26 @@ class MemInst:
         self.size += n
 
     def put_i32(self, addr: int, data: int) -> None:
-        self.data[addr:addr+4] = struct.pack('<i', data)
+        self.put(addr, bytearray(struct.pack('<i', data)))
 
     def put_i64(self, addr: int, data: int) -> None:
-        self.data[addr:addr+8] = struct.pack('<q', data)
+        self.put(addr, bytearray(struct.pack('<q', data)))
 
     def put_u8(self, addr: int, data: int) -> None:
-        self.data[addr] = data
+        self.put(addr, bytearray(struct.pack('<B', data)))
 
     def put_u16(self, addr: int, data: int) -> None:
-        self.data[addr:addr+2] = struct.pack('<H', data)
+        self.put(addr, bytearray(struct.pack('<H', data)))
 
     def put_u32(self, addr: int, data: int) -> None:
-        self.data[addr:addr+4] = struct.pack('<I', data)
+        self.put(addr, bytearray(struct.pack('<I', data)))
 
     def put_u64(self, addr: int, data: int) -> None:
-        self.data[addr:addr+8] = struct.pack('<Q', data)
+        self.put(addr, bytearray(struct.pack('<Q', data)))
 
     def put(self, addr: int, data: bytearray) -> None:
         assert isinstance(data, bytearray)
+        assert 0 <= addr and addr + len(data) <= len(self.data)
         self.data[addr:addr+len(data)] = data.copy()
 
     def suit(self, l: Limits) -> bool:
-- 
2.43.0


From 9de931f4487dd3c34acd8141c3be3d56ea27d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 16/34] fix: path_open creates files only through descriptors
 with the path_create_file right

---
 pywasm/wasi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index d4243e3..526cc1f 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1167,6 +1167,8 @@ class Preview1:
             flag |= os.O_NOFOLLOW
         if args[4] & self.OFLAGS_CREAT:
             flag |= os.O_CREAT
+            if self.help_perm(args[0], self.RIGHTS_PATH_CREATE_FILE):
+                return [self.ERRNO_NOTCAPABLE]
         if args[4] & self.OFLAGS_DIRECTORY:
             flag |= os.O_DIRECTORY
         if args[4] & self.OFLAGS_EXCL:
-- 
2.43.0


From 72fd5a5774eb8b7d3ba5b9cf50e427ccb3e35979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 17/34] fix: path arguments that climb out of their directory
 are refused whatever its name is

---
 pywasm/wasi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 526cc1f..7ae8023 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -974,7 +974,9 @@ class Preview1:
         return fd < 0 or fd >= len(self.fd) or self.fd[fd].wasm_status != self.FILE_STATUS_OPENED
 
     def help_escp(self, root: str, name: str) -> bool:
-        return not os.path.normpath(os.path.join(root, name)).startswith(root)
+        # A path escapes from its root if it is absolute or climbs above the root. Comparing text prefixes is not enough:
+        # "../foobar" would pass for a path below "foo", and everything would pass for a path below ".".
+        return os.path.isabs(name) or os.path.normpath(name).split(os.sep, 1)[0] == os.pardir
 
     def help_wasm_type(self, info: os.stat_result) -> int:
         match info.st_mode:
-- 
2.43.0


From caa2021fca558a1c1a3c5edacff175b85842088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 18/34] fix: path_readlink counts bytes, not characters

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 7ae8023..6ea72aa 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1260,11 +1260,11 @@ class Preview1:
         if self.help_escp(file.wasm_name, name):
             return [self.ERRNO_PERM]
         try:
-            data = os.readlink(name, dir_fd=file.host_fd)
+            data = os.readlink(name, dir_fd=file.host_fd).encode()
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         size = min(len(data), args[4])
-        mems.put(args[3], bytearray(data[:size].encode()))
+        mems.put(args[3], bytearray(data[:size]))
         mems.put_u32(args[5], size)
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From 8b9f55b121317af78fb5f4d00e584a01e57ea970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 19/34] fix: fd_renumber of a descriptor onto itself closed it

---
 pywasm/wasi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 6ea72aa..4d6a238 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -877,6 +877,8 @@ class Preview1:
     def fd_renumber(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         if self.help_badf(args[0]) or self.help_badf(args[1]):
             return [self.ERRNO_BADF]
+        if args[0] == args[1]:
+            return [self.ERRNO_SUCCESS]
         stem = self.fd[args[0]]
         dest = self.fd[args[1]]
         if dest.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
-- 
2.43.0


From 80c79c2a4964e37ae830fe7514edbe466e661afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 20/34] fix: sock_accept raised TypeError, and closed the
 connection it accepted

---
 pywasm/wasi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 4d6a238..115d482 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1491,10 +1491,12 @@ class Preview1:
         if args[1] & self.FDFLAGS_NONBLOCK:
             sock.setblocking(False)
         conn, _ = sock.accept()
-        host_fd = conn.fileno()
+        # The descriptor must outlive the socket object.
+        host_fd = conn.detach()
         wasm_fd = len(self.fd)
         self.fd.append(self.File(
             host_fd=host_fd,
+            host_flag=0,
             host_name=file.host_name,
             host_status=self.FILE_STATUS_OPENED,
             pipe=None,
-- 
2.43.0


From 0785ecccf739b48385cd0a45802392112579ec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 21/34] fix: path_open granted any rights asked for, whatever
 the directory hands on

---
 pywasm/wasi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 115d482..846f48a 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1206,8 +1206,9 @@ class Preview1:
             if platform.system().lower() == 'linux' and e.errno == 40:
                 return [self.ERRNO_LOOP]
             raise e
-        rights_base = args[5]
-        rights_root = args[6]
+        # A descriptor gets no rights beyond those its directory hands on.
+        rights_base = args[5] & file.wasm_rights_root
+        rights_root = args[6] & file.wasm_rights_root
         # Drectory does not have the seek right.
         if os.path.isdir(host_fd):
             void = self.RIGHTS_FD_SEEK
-- 
2.43.0


From 57d5610e67f9a88989170eec76dfa8bbf8c2c2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 22/34] fix: a pipe keeps its file when its descriptor is
 renumbered

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 846f48a..56e494b 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1004,7 +1004,7 @@ class Preview1:
         return self.fd[fd].wasm_rights_base & perm == 0
 
     def help_pipe(self, fd: int) -> bool:
-        return fd < 3 and self.fd[fd].pipe is not None
+        return self.fd[fd].pipe is not None
 
     def help_sock(self, fd: int) -> bool:
         return self.fd[fd].wasm_type not in [self.FILETYPE_SOCKET_DGRAM, self.FILETYPE_SOCKET_STREAM]
-- 
2.43.0


From d5da6bd23391c5e723e7f3739738ddc46a64d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 23/34] fix: fd_filestat_set_times set the given time for
 MTIM_NOW

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 56e494b..d829658 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -737,7 +737,7 @@ class Preview1:
         if args[3] & self.FSTFLAGS_MTIM:
             mtim = args[2]
         if args[3] & self.FSTFLAGS_MTIM_NOW:
-            mtim = args[2]
+            mtim = time.time_ns()
         os.utime(file.host_fd, ns=(atim, mtim))
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From dbb872d457af899c8caee310a69027d32d96aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 24/34] fix: fd_fdstat_set_flags refused to change NONBLOCK

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index d829658..f0ea826 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -654,7 +654,7 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_FD_FDSTAT_SET_FLAGS):
             return [self.ERRNO_NOTCAPABLE]
         file = self.fd[args[0]]
-        fyes = self.FDFLAGS_APPEND | self.FDFLAGS_APPEND
+        fyes = self.FDFLAGS_APPEND | self.FDFLAGS_NONBLOCK
         if file.wasm_flag ^ args[1] | fyes != fyes:
             # Only support changing the NONBLOCK or APPEND flags.
             return [self.ERRNO_INVAL]
-- 
2.43.0


From a83b24611fcb8b9e66ed1689bd893a30114cbb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 25/34] fix: a refused fd_seek moved the offset

---
 pywasm/wasi.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index f0ea826..994e427 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1,4 +1,5 @@
 import dataclasses
+import errno
 import fcntl
 import os
 import platform
@@ -912,11 +913,15 @@ class Preview1:
         assert self.WHENCE_END == os.SEEK_END
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        ocur = os.lseek(file.host_fd, 0, args[2])
-        # Seek before byte 0 is an error though.
-        if ocur + args[1] < 0:
+        if args[2] not in [self.WHENCE_SET, self.WHENCE_CUR, self.WHENCE_END]:
             return [self.ERRNO_INVAL]
-        offs = os.lseek(file.host_fd, args[1], args[2])
+        # Seek before byte 0 is an error though. The offset stays where it is then.
+        try:
+            offs = os.lseek(file.host_fd, args[1], args[2])
+        except OSError as e:
+            if e.errno == errno.EINVAL:
+                return [self.ERRNO_INVAL]
+            raise e
         mems.put_u64(args[3], offs)
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From bd6855d6109b3daa2c1ead5cf289a30c0d2bc598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 26/34] fix: fd_prestat_* took the standard streams for
 preopened directories

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 994e427..c8a65be 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -771,7 +771,7 @@ class Preview1:
 
     def fd_prestat_dir_name(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or args[0] < 3 or args[0] - 2 > len(self.dirs):
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
@@ -783,7 +783,7 @@ class Preview1:
 
     def fd_prestat_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or args[0] < 3 or args[0] - 2 > len(self.dirs):
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-- 
2.43.0


From 0c21d05023a5516829832eb615ce7e0de496055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 27/34] fix: fd_filestat_get looked at the name a file was
 opened by, not at the file

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index c8a65be..a3b6fb7 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -694,7 +694,7 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        info = os.stat(file.host_name)
+        info = os.stat(file.host_fd)
         mems.put_u64(args[1], 1)
         mems.put_u64(args[1] + 8, info.st_ino)
         mems.put_u8(args[1] + 16, file.wasm_type)
-- 
2.43.0


From 1678c3a25e108871131ec971b003702be4e3a4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 28/34] fix: path_filestat_set_times took the times of the
 target of a symbolic link it does not follow

---
 pywasm/wasi.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index a3b6fb7..6ce508c 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1111,7 +1111,11 @@ class Preview1:
         name = mems.get(args[2], args[3]).decode()
         if self.help_escp(file.wasm_name, name):
             return [self.ERRNO_PERM]
-        info = os.stat(name, dir_fd=file.host_fd)
+        foll = flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW
+        try:
+            info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=foll)
+        except FileNotFoundError:
+            return [self.ERRNO_NOENT]
         atim = info.st_atime_ns
         if args[6] & self.FSTFLAGS_ATIM:
             atim = args[4]
@@ -1123,7 +1127,7 @@ class Preview1:
         if args[6] & self.FSTFLAGS_MTIM_NOW:
             mtim = time.time_ns()
         try:
-            os.utime(name, ns=(atim, mtim), dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
+            os.utime(name, ns=(atim, mtim), dir_fd=file.host_fd, follow_symlinks=foll)
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From a29a6b9e6bae0e14be95954361dd534def14d02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 29/34] fix: poll_oneoff read the clock id together with
 padding

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 6ce508c..f5b27dd 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1400,7 +1400,7 @@ class Preview1:
             eype = mems.get_u8(addr + 8)
             match eype:
                 case self.EVENTTYPE_CLOCK:
-                    ckid = mems.get_u64(addr + 16)
+                    ckid = mems.get_u32(addr + 16)
                     nval = mems.get_u64(addr + 24)
                     flag = mems.get_u32(addr + 40)
                     ctim = self.help_time(ckid)
-- 
2.43.0


From 4bf954c4aaf4654766bfc70aab7759dd4b6f2a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 30/34] fix: poll_oneoff waited the wrong time for an absolute
 deadline

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index f5b27dd..0614a6c 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1404,7 +1404,7 @@ class Preview1:
                     nval = mems.get_u64(addr + 24)
                     flag = mems.get_u32(addr + 40)
                     ctim = self.help_time(ckid)
-                    delt = ctim - nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else nval
+                    delt = max(nval - ctim, 0) if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else nval
                     ends = nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else ctim + nval
                     csub.append([userdata, ckid, delt, ends])
                 case self.EVENTTYPE_FD_READ:
-- 
2.43.0


From ca2f78a6f02a161aaf4cdcf0a230ee0392362b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 31/34] fix: fd_readdir counted the characters of a name, not
 its bytes

---
 pywasm/wasi.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 0614a6c..3e0e8da 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -864,13 +864,14 @@ class Preview1:
             info = os.stat(os.path.normpath(os.path.join(file.host_name, name)))
             mems.put_u64(dirent, cookie + 1)
             mems.put_u64(dirent + 8, info.st_ino)
-            mems.put_u32(dirent + 16, len(name))
+            data = bytearray(name.encode())
+            mems.put_u32(dirent + 16, len(data))
             mems.put_u8(dirent + 20, self.help_wasm_type(info))
             dirent += 24
-            if dirent + len(name) > bufend:
+            if dirent + len(data) > bufend:
                 break
-            mems.put(dirent, bytearray(name.encode()))
-            dirent += len(name)
+            mems.put(dirent, data)
+            dirent += len(data)
             cookie += 1
         mems.put_u32(args[4], dirent - args[1] if cookie >= len(result) else buflen)
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 83fecd34f052b64b9217d7f9e3e4cc97b5a2f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 32/34] fix: args and environ calls counted characters, not
 bytes

---
 pywasm/wasi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 3e0e8da..b487e58 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -489,7 +489,7 @@ class Preview1:
             mems.put_u32(argv, argv_buf)
             argv += 4
             mems.put(argv_buf, bytearray(e.encode()))
-            argv_buf += len(e)
+            argv_buf += len(e.encode())
             mems.put_u8(argv_buf, 0)
             argv_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -498,7 +498,7 @@ class Preview1:
         # Return command-line argument data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.args))
-        mems.put_u32(args[1], sum([len(e) + 1 for e in self.args]))
+        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.args]))
         return [self.ERRNO_SUCCESS]
 
     def bind(self, runtime: pywasm.core.Runtime) -> None:
@@ -579,7 +579,7 @@ class Preview1:
             mems.put_u32(environ, environ_buf)
             environ += 4
             mems.put(environ_buf, bytearray(e.encode()))
-            environ_buf += len(e)
+            environ_buf += len(e.encode())
             mems.put_u8(environ_buf, 0)
             environ_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -588,7 +588,7 @@ class Preview1:
         # Return environment variable data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.envs))
-        mems.put_u32(args[1], sum([len(e) + 1 for e in self.envs]))
+        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.envs]))
         return [self.ERRNO_SUCCESS]
 
     def fd_advise(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 78e067c037cef6f46ba46401868de8814bae3379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 33/34] fix: an empty buffer ended fd_read and fd_pread

---
 pywasm/wasi.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index b487e58..c20d60d 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -758,11 +758,14 @@ class Preview1:
         for _ in range(iovs_len):
             elem_ptr = mems.get_u32(iovs_ptr)
             elem_len = mems.get_u32(iovs_ptr + 4)
+            iovs_ptr += 8
+            # An empty buffer does not end the transfer.
+            if elem_len == 0:
+                continue
             data = os.pread(file.host_fd, elem_len, offs)
             if len(data) == 0:
                 break
             mems.put(elem_ptr, bytearray(data))
-            iovs_ptr += 8
             offs += len(data)
             if len(data) < elem_len:
                 break
@@ -831,6 +834,10 @@ class Preview1:
         for _ in range(iovs_len):
             elem_ptr = mems.get_u32(iovs_ptr)
             elem_len = mems.get_u32(iovs_ptr + 4)
+            iovs_ptr += 8
+            # An empty buffer does not end the transfer.
+            if elem_len == 0:
+                continue
             data = [
                 lambda: os.read(file.host_fd, elem_len),
                 lambda: file.pipe.read(elem_len),
@@ -838,7 +845,6 @@ class Preview1:
             if len(data) == 0:
                 break
             mems.put(elem_ptr, bytearray(data))
-            iovs_ptr += 8
             size += len(data)
             if len(data) < elem_len:
                 break
-- 
2.43.0


From 9fff3a657c88f09c946858d9c5e49c4a1ff2ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:14 +0000
Subject: [PATCH 34/34] fix: instantiating a module twice found its data
 segments dropped

DataInst shared the byte array of the module description, so data.drop (run
for every active segment) emptied the description itself
---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 151bb5c..b4b1b02 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1502,7 +1502,7 @@ class Store:
 
     def allocate_data(self, data: bytearray) -> int:
         addr = len(self.data)
-        inst = DataInst(data)
+        inst = DataInst(data.copy())
         self.data.append(inst)
         return addr
 
-- 
2.43.0

