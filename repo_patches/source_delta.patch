From cbe76883dc21fea0197da85ff23199862fb37dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 01/41] fix: a trap no longer leaves its stack behind for the
 next invocation

---
 pywasm/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index ddb7bdd..d11b992 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1793,6 +1793,14 @@ class Machine:
         mems.data[addr:addr+size] = data[:size]
 
     def evaluate(self) -> None:
+        try:
+            self.evaluate_loop()
+        except BaseException:
+            # A trap aborts the whole computation. Whatever it left on the stack must not be resumed by the next one.
+            self.stack = Stack()
+            raise
+
+    def evaluate_loop(self) -> None:
         for _ in range(1 << 32):
             if not self.stack.label:
                 break
-- 
2.43.0


From 2a527576660357635a74597087b442aa886fa15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 02/41] fix: i64.div_u no longer fails on quotients above the
 signed range

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index d11b992..1213b24 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2315,7 +2315,7 @@ class Machine:
                 case pywasm.opcode.i64_div_u:
                     b = self.stack.value.pop().into_u64()
                     a = self.stack.value.pop().into_u64()
-                    c = ValInst.from_i64(pywasm.arith.u64.div(a, b))
+                    c = ValInst.from_u64(pywasm.arith.u64.div(a, b))
                     self.stack.value.append(c)
                 case pywasm.opcode.i64_rem_s:
                     b = self.stack.value.pop().into_i64()
-- 
2.43.0


From a8e7b7b0025eb00bcea63cdd69df32a93b475bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 03/41] fix: ceil, floor, trunc and nearest keep the sign of
 zero and quiet nan

---
 pywasm/arith.py | 19 +++++++++++++++++++
 pywasm/core.py  | 32 ++++++++++++++++----------------
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index ce54dee..08b65a5 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -1,6 +1,7 @@
 import ctypes
 import math
 import struct
+import typing
 
 
 class I:
@@ -193,6 +194,24 @@ class F64:
                 c = a / b
         return c
 
+    def integral(self, a: float, f: typing.Callable) -> float:
+        # Round to an integral value. Infinities are kept, nan is kept but quieted, and zero keeps the sign of its operand.
+        if math.isnan(a) or math.isinf(a):
+            return a + a
+        return math.copysign(float(f(a)), a)
+
+    def ceil(self, a: float) -> float:
+        return self.integral(a, math.ceil)
+
+    def floor(self, a: float) -> float:
+        return self.integral(a, math.floor)
+
+    def trunc(self, a: float) -> float:
+        return self.integral(a, math.trunc)
+
+    def nearest(self, a: float) -> float:
+        return self.integral(a, round)
+
     def min(self, a: float, b: float) -> float:
         c = min(a, b)
         if math.isnan(a):
diff --git a/pywasm/core.py b/pywasm/core.py
index 1213b24..2e762c8 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2379,22 +2379,22 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_ceil:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.ceil(a))
+                    b = pywasm.arith.f64.ceil(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_floor:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.floor(a))
+                    b = pywasm.arith.f64.floor(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_trunc:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.trunc(a))
+                    b = pywasm.arith.f64.trunc(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_nearest:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(round(a))
+                    b = pywasm.arith.f64.nearest(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_sqrt:
@@ -2452,22 +2452,22 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f64_ceil:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.ceil(a))
+                    b = pywasm.arith.f64.ceil(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_floor:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.floor(a))
+                    b = pywasm.arith.f64.floor(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_trunc:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.trunc(a))
+                    b = pywasm.arith.f64.trunc(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_nearest:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(round(a))
+                    b = pywasm.arith.f64.nearest(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_sqrt:
@@ -3376,22 +3376,22 @@ class Machine:
                     self.stack.value.append(e)
                 case pywasm.opcode.f32x4_ceil:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.ceil(e)) for e in a]
+                    b = [pywasm.arith.f64.ceil(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_floor:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.floor(e)) for e in a]
+                    b = [pywasm.arith.f64.floor(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_trunc:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.trunc(e)) for e in a]
+                    b = [pywasm.arith.f64.trunc(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_nearest:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(round(e)) for e in a]
+                    b = [pywasm.arith.f64.nearest(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_shl:
@@ -3447,12 +3447,12 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_ceil:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.ceil(e)) for e in a]
+                    b = [pywasm.arith.f64.ceil(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64x2_floor:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.floor(e)) for e in a]
+                    b = [pywasm.arith.f64.floor(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_min_s:
@@ -3481,7 +3481,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_trunc:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.trunc(e)) for e in a]
+                    b = [pywasm.arith.f64.trunc(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_avgr_u:
@@ -3622,7 +3622,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_nearest:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(round(e)) for e in a]
+                    b = [pywasm.arith.f64.nearest(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i16x8_mul:
-- 
2.43.0


From a165c30119df7754d4a9731f4784b4641cf71bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 04/41] fix: float min and max order zeros by sign and quiet
 nan

---
 pywasm/arith.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index 08b65a5..6e27454 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -213,20 +213,20 @@ class F64:
         return self.integral(a, round)
 
     def min(self, a: float, b: float) -> float:
-        c = min(a, b)
-        if math.isnan(a):
-            c = a
-        if math.isnan(b):
-            c = b
-        return c
+        if math.isnan(a) or math.isnan(b):
+            return a + b
+        if a == b:
+            # Zeros of opposite sign compare equal.
+            return a if math.copysign(1, a) < 0 else b
+        return min(a, b)
 
     def max(self, a: float, b: float) -> float:
-        c = max(a, b)
-        if math.isnan(a):
-            c = a
-        if math.isnan(b):
-            c = b
-        return c
+        if math.isnan(a) or math.isnan(b):
+            return a + b
+        if a == b:
+            # Zeros of opposite sign compare equal.
+            return b if math.copysign(1, a) < 0 else a
+        return max(a, b)
 
 
 i8 = I(1)
-- 
2.43.0


From f22ae49dcce1f50a3ada6e03b0d3e9b8e73f4b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 05/41] fix: f32.copysign and f64.copysign only touch the sign
 bit

---
 pywasm/core.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 2e762c8..cece42a 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2436,9 +2436,10 @@ class Machine:
                     d = ValInst.from_f32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32_copysign:
-                    b = self.stack.value.pop().into_f32()
-                    a = self.stack.value.pop().into_f32()
-                    c = ValInst.from_f32(math.copysign(a, b))
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    c = ValInst(ValType.f32(), a.data.copy())
+                    c.data[3] = (a.data[3] & 0x7f) | (b.data[3] & 0x80)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_abs:
                     a = self.stack.value.pop()
@@ -2509,9 +2510,10 @@ class Machine:
                     d = ValInst.from_f64(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f64_copysign:
-                    b = self.stack.value.pop().into_f64()
-                    a = self.stack.value.pop().into_f64()
-                    c = ValInst.from_f64(math.copysign(a, b))
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    c = ValInst(ValType.f64(), a.data.copy())
+                    c.data[7] = (a.data[7] & 0x7f) | (b.data[7] & 0x80)
                     self.stack.value.append(c)
                 case pywasm.opcode.i32_wrap_i64:
                     a = self.stack.value.pop().into_i64()
-- 
2.43.0


From 23e8e7b672966a7372aebe463a1133dae9afb355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 06/41] fix: f32.convert_i64 rounds once

---
 pywasm/arith.py | 8 ++++++++
 pywasm/core.py  | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index 6e27454..4bf69d0 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -159,6 +159,14 @@ class F32:
     def fit(self, n: float) -> float:
         return ctypes.c_float(n).value
 
+    def convert(self, n: int) -> float:
+        # Converting a wide integer to double and then to float would round twice. Fold the low bits into a sticky bit
+        # first, so that the integer is exactly representable as a double.
+        s = abs(n).bit_length() - 32
+        if s > 0:
+            n = ((n >> s) | (n & ((1 << s) - 1) != 0)) << s
+        return self.fit(float(n))
+
     def div(self, a: float, b: float) -> float:
         return self.fit(f64.div(a, b))
 
diff --git a/pywasm/core.py b/pywasm/core.py
index cece42a..852517e 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2585,11 +2585,11 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_convert_i64_s:
                     a = self.stack.value.pop().into_i64()
-                    b = ValInst.from_f32(float(a))
+                    b = ValInst.from_f32(pywasm.arith.f32.convert(a))
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_convert_i64_u:
                     a = self.stack.value.pop().into_u64()
-                    b = ValInst.from_f32(float(a))
+                    b = ValInst.from_f32(pywasm.arith.f32.convert(a))
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_demote_f64:
                     a = self.stack.value.pop().into_f64()
-- 
2.43.0


From 78c7d6c6e8138e95b350db86c64ec214f3d5c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 07/41] fix: f32x4 abs, neg, pmin and pmax move bit patterns
 unchanged

---
 pywasm/core.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 852517e..dd34a6f 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -3946,14 +3946,14 @@ class Machine:
                     d = ValInst.from_v128_u64(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_abs:
-                    a = self.stack.value.pop().into_v128_f32()
-                    b = [abs(e) for e in a]
-                    c = ValInst.from_v128_f32(b)
+                    a = self.stack.value.pop().into_v128_u32()
+                    b = [e & 0x7fffffff for e in a]
+                    c = ValInst.from_v128_u32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_neg:
-                    a = self.stack.value.pop().into_v128_f32()
-                    b = [-e for e in a]
-                    c = ValInst.from_v128_f32(b)
+                    a = self.stack.value.pop().into_v128_u32()
+                    b = [e ^ 0x80000000 for e in a]
+                    c = ValInst.from_v128_u32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_sqrt:
                     a = self.stack.value.pop().into_v128_f32()
@@ -3997,16 +3997,20 @@ class Machine:
                     d = ValInst.from_v128_f32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_pmin:
-                    b = self.stack.value.pop().into_v128_f32()
-                    a = self.stack.value.pop().into_v128_f32()
-                    c = [min(a[i], b[i]) for i in range(4)]
-                    d = ValInst.from_v128_f32(c)
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    x, y = a.into_v128_f32(), b.into_v128_f32()
+                    p, q = a.into_v128_u32(), b.into_v128_u32()
+                    c = [q[i] if x[i] > y[i] else p[i] for i in range(4)]
+                    d = ValInst.from_v128_u32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_pmax:
-                    b = self.stack.value.pop().into_v128_f32()
-                    a = self.stack.value.pop().into_v128_f32()
-                    c = [max(a[i], b[i]) for i in range(4)]
-                    d = ValInst.from_v128_f32(c)
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    x, y = a.into_v128_f32(), b.into_v128_f32()
+                    p, q = a.into_v128_u32(), b.into_v128_u32()
+                    c = [q[i] if x[i] < y[i] else p[i] for i in range(4)]
+                    d = ValInst.from_v128_u32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_abs:
                     a = self.stack.value.pop().into_v128_f64()
-- 
2.43.0


From 111cdde897fdc2105013137e50c904805e11e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 08/41] fix: an explicit maximum of zero is not the absence of
 a maximum

---
 pywasm/core.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index dd34a6f..20847e5 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -817,24 +817,26 @@ class FuncDesc:
 class Limits:
     # Limits are encoded with a preceding flag indicating whether a maximum is present.
 
-    def __init__(self, n: int, m: int) -> typing.Self:
+    def __init__(self, n: int, m: typing.Optional[int]) -> typing.Self:
+        # A missing maximum is represented by None. For convenience, zero also means that there is no maximum wherever
+        # it could not be one, that is, if the minimum is not zero.
         self.n = n
-        self.m = m
+        self.m = None if n > 0 and m == 0 else m
 
     def __repr__(self) -> str:
-        m = 'inf' if self.m == 0 else repr(self.m)
+        m = 'inf' if self.m is None else repr(self.m)
         return f'[{self.n}, {m}]'
 
     def suit(self, value: typing.Self) -> bool:
         c1 = self.n >= value.n
-        c2 = value.m == 0
-        c3 = self.m != 0 and value.m != 0 and self.m <= value.m
+        c2 = value.m is None
+        c3 = self.m is not None and value.m is not None and self.m <= value.m
         return c1 and (c2 or c3)
 
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
         flag = ord(r.read(1))
-        return cls(pywasm.leb128.u.decode_reader(r)[0],  pywasm.leb128.u.decode_reader(r)[0] if flag else 0x00)
+        return cls(pywasm.leb128.u.decode_reader(r)[0],  pywasm.leb128.u.decode_reader(r)[0] if flag else None)
 
 
 class MemType:
@@ -894,7 +896,7 @@ class MemInst:
         return self.data[addr:addr+size].copy()
 
     def grow(self, n: int) -> None:
-        if self.type.limits.m:
+        if self.type.limits.m is not None:
             assert self.size + n <= self.type.limits.m
         assert self.size + n <= 65536
         self.data.extend(bytearray(n * 64 * 1024))
@@ -962,7 +964,7 @@ class TableInst:
         self.grow(type.limits.n, ValInst.zero(self.type.type))
 
     def grow(self, n: int, v: ValInst) -> None:
-        if self.type.limits.m:
+        if self.type.limits.m is not None:
             assert self.size + n <= self.type.limits.m
         assert v.type == self.type.type
         self.elem.extend([v for _ in range(n)])
@@ -2000,7 +2002,7 @@ class Machine:
                     rets = -1
                     # Limit memory size to 64m.
                     cnda = size + incr <= 1024
-                    cndb = mems.type.limits.m == 0 or size + incr <= mems.type.limits.m
+                    cndb = mems.type.limits.m is None or size + incr <= mems.type.limits.m
                     if cnda and cndb:
                         rets = size
                         mems.grow(incr)
@@ -2784,7 +2786,7 @@ class Machine:
                     init = self.stack.value.pop()
                     rets = -1
                     cnda = size + incr <= 1024
-                    cndb = tabl.type.limits.m == 0 or size + incr <= tabl.type.limits.m
+                    cndb = tabl.type.limits.m is None or size + incr <= tabl.type.limits.m
                     if cnda and cndb:
                         rets = size
                         tabl.grow(incr, init)
-- 
2.43.0


From 0640260d3602c0c96a5b09129b4c32acf0ff0fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 09/41] fix: a branch to the function label of a called
 function leaves its frame

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 20847e5..d44a3fa 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1766,7 +1766,7 @@ class Machine:
                 ))
                 self.stack.label.append(Label(
                     nret,
-                    len(self.stack.frame),
+                    len(self.stack.frame) - 1,
                     len(self.stack.value),
                     3,
                     func.code.expr.data,
-- 
2.43.0


From 91a61fee6c90f592a8946f82ff86cd20f2b18381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 10/41] fix: null references can cross the host boundary

---
 pywasm/core.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index d44a3fa..dfee9a8 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -201,11 +201,14 @@ class ValInst:
         return cls(ValType.v128(), data)
 
     @classmethod
-    def from_ref(cls, type: ValType, n: int) -> typing.Self:
+    def from_ref(cls, type: ValType, n: typing.Optional[int]) -> typing.Self:
+        # The null reference is represented by None.
+        if n is None:
+            return cls.zero(type)
         return cls(type, bytearray(struct.pack('<i', n)) + bytearray([0x01]) + bytearray(cls.blen - 5))
 
     @classmethod
-    def from_all(cls, type: ValType, n: typing.Union[int, float, bytearray]) -> typing.Self:
+    def from_all(cls, type: ValType, n: typing.Union[int, float, bytearray, None]) -> typing.Self:
         match type.data:
             case 0x7f:
                 return cls.from_i32(n)
@@ -279,7 +282,7 @@ class ValInst:
         assert self.data[4] == 0x01
         return self.into_i32()
 
-    def into_all(self) -> typing.Union[int, float, bytearray]:
+    def into_all(self) -> typing.Union[int, float, bytearray, None]:
         match self.type.data:
             case 0x7f:
                 return self.into_i32()
@@ -292,9 +295,9 @@ class ValInst:
             case 0x7b:
                 return self.into_v128()
             case 0x70:
-                return self.into_ref()
+                return self.into_ref() if self.data[4] != 0x00 else None
             case 0x6f:
-                return self.into_ref()
+                return self.into_ref() if self.data[4] != 0x00 else None
             case _:
                 assert 0
 
-- 
2.43.0


From 681b246bdbb239bddbab0a52bddf4242ff19f9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 11/41] fix: a host function must return as many values as its
 type says

---
 pywasm/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index dfee9a8..963cb4e 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1777,6 +1777,7 @@ class Machine:
                 ))
             case 0x01:
                 rets = func.hostcode(self, [e.into_all() for e in args])
+                assert len(rets) == nret
                 rets = [ValInst.from_all(a, b) for a, b in zip(func.type.rets, rets)]
                 self.stack.value.extend(rets)
             case _:
-- 
2.43.0


From f0eac9da0470798fa0cc4225fcfc3e0afd81860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 12/41] fix: only exported functions can be invoked

---
 pywasm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 963cb4e..c217acf 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -4189,7 +4189,9 @@ class Runtime:
     ) -> typing.List[int | float | bytearray]:
         # Once a module has been instantiated, any exported function can be invoked externally via its function address
         # in the store and an appropriate list of argument values.
-        addr = [e for e in module.exps if e.name == func][0].data.data
+        inst = [e for e in module.exps if e.name == func][0].data
+        assert inst.kind == 0x00
+        addr = inst.data
         func = self.machine.store.func[addr]
         assert len(func.type.args) == len(args)
         args = [ValInst.from_all(a, b) for a, b in zip(func.type.args, args)]
-- 
2.43.0


From d8f3250037787698aa55ddb2686c9ae3abf9f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 13/41] fix: sections after the 32nd are no longer ignored

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index c217acf..d0f5021 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1321,7 +1321,7 @@ class ModuleDesc:
         imps: typing.List[Import] = []
         exps: typing.List[ExportDesc] = []
 
-        for _ in range(32):
+        while True:
             section_id_byte = r.read(1)
             if not section_id_byte:
                 break
-- 
2.43.0


From 0f0a2ca54f83ea21df4bd03e6c9a7075fe129d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 14/41] fix: sections and bodies must fill exactly their
 declared size

---
 pywasm/core.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index d0f5021..1d22e78 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1266,6 +1266,15 @@ class DataDesc:
         return cls(kind, midx, offset, init)
 
 
+class Reader(io.BytesIO):
+    # A reader over the contents of a section or of a function body, which must hold as many bytes as are asked for.
+
+    def read(self, size: int = -1) -> bytes:
+        data = super().read(size)
+        assert size < 0 or len(data) == size
+        return data
+
+
 class DataInst:
     # An data instance is the runtime representation of a data segment. It holds a vector of bytes.
 
@@ -1320,6 +1329,8 @@ class ModuleDesc:
         star: int = -1
         imps: typing.List[Import] = []
         exps: typing.List[ExportDesc] = []
+        code: int = 0
+        datacount: typing.Optional[int] = None
 
         while True:
             section_id_byte = r.read(1)
@@ -1329,7 +1340,7 @@ class ModuleDesc:
             n = pywasm.leb128.u.decode_reader(r)[0]
             section_data = bytearray(r.read(n))
             assert len(section_data) == n
-            section_reader = io.BytesIO(section_data)
+            section_reader = Reader(section_data)
 
             match section_id:
                 case 0x00:
@@ -1380,9 +1391,12 @@ class ModuleDesc:
                         elem.append(desc)
                         pywasm.log.debugln('section elem', desc)
                 case 0x0a:
-                    for i in range(pywasm.leb128.u.decode_reader(section_reader)[0]):
+                    code = pywasm.leb128.u.decode_reader(section_reader)[0]
+                    for i in range(code):
                         size = pywasm.leb128.u.decode_reader(section_reader)[0]
-                        desc = FuncDesc.from_reader_code(io.BytesIO(section_reader.read(size)))
+                        code_reader = Reader(section_reader.read(size))
+                        desc = FuncDesc.from_reader_code(code_reader)
+                        assert not code_reader.read()
                         func[i].locals = desc.locals
                         func[i].expr = desc.expr
                         pywasm.log.debugln('section code', desc)
@@ -1393,9 +1407,15 @@ class ModuleDesc:
                         data.append(desc)
                         pywasm.log.debugln('section data', desc)
                 case 0x0c:
-                    n = pywasm.leb128.u.decode_reader(section_reader)[0]
-                    pywasm.log.debugln('section data count', n)
+                    datacount = pywasm.leb128.u.decode_reader(section_reader)[0]
+                    pywasm.log.debugln('section data count', datacount)
+                case _:
+                    assert 0, hex(section_id)
+            # The section size must match the contents.
+            assert not section_reader.read()
 
+        assert code == len(func)
+        assert datacount is None or datacount == len(data)
         return cls(type, func, tabl, mems, glob, elem, data, star, imps, exps)
 
 
-- 
2.43.0


From 45e418a10fad2f3b3b9a93030a573b116dd149d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 15/41] fix: every invocation and instantiation has a stack of
 its own

---
 pywasm/core.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 1d22e78..8def3fa 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1627,6 +1627,16 @@ class Machine:
         return inst
 
     def instance(self, module: ModuleDesc, extern: typing.List[Extern]) -> ModuleInst:
+        # Like invocate, it runs on a stack of its own. So nothing remains on it after a trap, and a host function may
+        # call back while the stack of its caller is untouched.
+        stack = self.stack
+        self.stack = Stack()
+        try:
+            return self.instance_module(module, extern)
+        finally:
+            self.stack = stack
+
+    def instance_module(self, module: ModuleDesc, extern: typing.List[Extern]) -> ModuleInst:
         assert len(module.imps) == len(extern)
         for a, b in zip(module.imps, extern):
             assert a.kind == b.kind
@@ -1724,6 +1734,14 @@ class Machine:
         return newmod
 
     def invocate(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
+        stack = self.stack
+        self.stack = Stack()
+        try:
+            return self.invocate_func(addr, args)
+        finally:
+            self.stack = stack
+
+    def invocate_func(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
         func = self.store.func[addr]
         assert func.kind == 0x00
         for a, b in zip(func.type.args, args):
@@ -1819,14 +1837,6 @@ class Machine:
         mems.data[addr:addr+size] = data[:size]
 
     def evaluate(self) -> None:
-        try:
-            self.evaluate_loop()
-        except BaseException:
-            # A trap aborts the whole computation. Whatever it left on the stack must not be resumed by the next one.
-            self.stack = Stack()
-            raise
-
-    def evaluate_loop(self) -> None:
         for _ in range(1 << 32):
             if not self.stack.label:
                 break
-- 
2.43.0


From c8296be52d5b86f2030b1b5e29b98cff68b2c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 16/41] fix: instances of one module no longer share data
 segments with it

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 8def3fa..3eadcc5 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1610,7 +1610,7 @@ class Machine:
             addr = self.store.allocate_elem(e.type, elemin[i])
             inst.elem.append(addr)
         for i, e in enumerate(module.data):
-            addr = self.store.allocate_data(e.init)
+            addr = self.store.allocate_data(e.init.copy())
             inst.data.append(addr)
         for _, e in enumerate(module.exps):
             expi = ExportInst(e.name, Extern(e.kind, 0))
-- 
2.43.0


From b195d59332aac94778b9c8959cd39dc918acbf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 17/41] fix: arguments and environment are measured in bytes,
 not characters

---
 pywasm/wasi.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index d4243e3..adadb61 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -485,10 +485,11 @@ class Preview1:
         argv = args[0]
         argv_buf = args[1]
         for e in self.args:
+            data = bytearray(e.encode())
             mems.put_u32(argv, argv_buf)
             argv += 4
-            mems.put(argv_buf, bytearray(e.encode()))
-            argv_buf += len(e)
+            mems.put(argv_buf, data)
+            argv_buf += len(data)
             mems.put_u8(argv_buf, 0)
             argv_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -497,7 +498,7 @@ class Preview1:
         # Return command-line argument data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.args))
-        mems.put_u32(args[1], sum([len(e) + 1 for e in self.args]))
+        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.args]))
         return [self.ERRNO_SUCCESS]
 
     def bind(self, runtime: pywasm.core.Runtime) -> None:
@@ -575,10 +576,11 @@ class Preview1:
         environ = args[0]
         environ_buf = args[1]
         for e in self.envs:
+            data = bytearray(e.encode())
             mems.put_u32(environ, environ_buf)
             environ += 4
-            mems.put(environ_buf, bytearray(e.encode()))
-            environ_buf += len(e)
+            mems.put(environ_buf, data)
+            environ_buf += len(data)
             mems.put_u8(environ_buf, 0)
             environ_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -587,7 +589,7 @@ class Preview1:
         # Return environment variable data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.envs))
-        mems.put_u32(args[1], sum([len(e) + 1 for e in self.envs]))
+        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.envs]))
         return [self.ERRNO_SUCCESS]
 
     def fd_advise(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 15dc23c3c431e447006ebb34f0fa873e261815ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 18/41] fix: host access to guest memory is checked against its
 bounds

---
 pywasm/core.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 3eadcc5..cbd4b2c 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -878,25 +878,26 @@ class MemInst:
         self.grow(type.limits.n)
 
     def get_i32(self, addr: int) -> int:
-        return struct.unpack('<i', self.data[addr:addr+4])[0]
+        return struct.unpack('<i', self.get(addr, 4))[0]
 
     def get_i64(self, addr: int) -> int:
-        return struct.unpack('<q', self.data[addr:addr+8])[0]
+        return struct.unpack('<q', self.get(addr, 8))[0]
 
     def get_u8(self, addr: int) -> int:
-        return self.data[addr]
+        return self.get(addr, 1)[0]
 
     def get_u16(self, addr: int) -> int:
-        return struct.unpack('<H', self.data[addr:addr+2])[0]
+        return struct.unpack('<H', self.get(addr, 2))[0]
 
     def get_u32(self, addr: int) -> int:
-        return struct.unpack('<I', self.data[addr:addr+4])[0]
+        return struct.unpack('<I', self.get(addr, 4))[0]
 
     def get_u64(self, addr: int) -> int:
-        return struct.unpack('<Q', self.data[addr:addr+8])[0]
+        return struct.unpack('<Q', self.get(addr, 8))[0]
 
     def get(self, addr: int, size: int) -> bytearray:
-        return self.data[addr:addr+size].copy()
+        assert addr >= 0 and size >= 0 and addr + size <= len(self.data)
+        return self.data[addr:addr+size]
 
     def grow(self, n: int) -> None:
         if self.type.limits.m is not None:
@@ -906,26 +907,27 @@ class MemInst:
         self.size += n
 
     def put_i32(self, addr: int, data: int) -> None:
-        self.data[addr:addr+4] = struct.pack('<i', data)
+        self.put(addr, bytearray(struct.pack('<i', data)))
 
     def put_i64(self, addr: int, data: int) -> None:
-        self.data[addr:addr+8] = struct.pack('<q', data)
+        self.put(addr, bytearray(struct.pack('<q', data)))
 
     def put_u8(self, addr: int, data: int) -> None:
-        self.data[addr] = data
+        self.put(addr, bytearray([data]))
 
     def put_u16(self, addr: int, data: int) -> None:
-        self.data[addr:addr+2] = struct.pack('<H', data)
+        self.put(addr, bytearray(struct.pack('<H', data)))
 
     def put_u32(self, addr: int, data: int) -> None:
-        self.data[addr:addr+4] = struct.pack('<I', data)
+        self.put(addr, bytearray(struct.pack('<I', data)))
 
     def put_u64(self, addr: int, data: int) -> None:
-        self.data[addr:addr+8] = struct.pack('<Q', data)
+        self.put(addr, bytearray(struct.pack('<Q', data)))
 
     def put(self, addr: int, data: bytearray) -> None:
         assert isinstance(data, bytearray)
-        self.data[addr:addr+len(data)] = data.copy()
+        assert addr >= 0 and addr + len(data) <= len(self.data)
+        self.data[addr:addr+len(data)] = data
 
     def suit(self, l: Limits) -> bool:
         return Limits(self.size, self.type.limits.m).suit(l)
-- 
2.43.0


From c722c52ff9e5ff4e47128fefeffba6f739fade9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 19/41] fix: WASI functions take unsigned numbers

---
 pywasm/wasi.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index adadb61..aa47dcd 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -555,7 +555,7 @@ class Preview1:
         runtime.imports['wasi_snapshot_preview1'] = {}
         for e in vec:
             funkype = pywasm.core.FuncType(e[1], e[2])
-            runtime.imports['wasi_snapshot_preview1'][e[0]] = runtime.allocate_func_host(funkype, e[3])
+            runtime.imports['wasi_snapshot_preview1'][e[0]] = runtime.allocate_func_host(funkype, self.help_call(funkype, e[3]))
 
     def clock_res_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the resolution of a clock.
@@ -912,11 +912,13 @@ class Preview1:
         assert self.WHENCE_END == os.SEEK_END
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
+        # The offset is the only signed number of the whole interface.
+        diff = args[1] - (args[1] >> 63 << 64)
         ocur = os.lseek(file.host_fd, 0, args[2])
         # Seek before byte 0 is an error though.
-        if ocur + args[1] < 0:
+        if ocur + diff < 0:
             return [self.ERRNO_INVAL]
-        offs = os.lseek(file.host_fd, args[1], args[2])
+        offs = os.lseek(file.host_fd, diff, args[2])
         mems.put_u64(args[3], offs)
         return [self.ERRNO_SUCCESS]
 
@@ -975,6 +977,14 @@ class Preview1:
     def help_badf(self, fd: int) -> bool:
         return fd < 0 or fd >= len(self.fd) or self.fd[fd].wasm_status != self.FILE_STATUS_OPENED
 
+    def help_call(self, type: pywasm.core.FuncType, func: typing.Callable) -> typing.Callable:
+        # Integers arrive as signed numbers, but pointers, lengths, handles, flags and so on are unsigned.
+        mask = [0xffffffff if e == pywasm.core.ValType.i32() else 0xffffffffffffffff for e in type.args]
+
+        def call(m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
+            return func(m, [a & b for a, b in zip(args, mask)])
+        return call
+
     def help_escp(self, root: str, name: str) -> bool:
         return not os.path.normpath(os.path.join(root, name)).startswith(root)
 
-- 
2.43.0


From 6f5110ad30ac1981db16d97bc8a03de19bc0db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 20/41] fix: an empty buffer or a short pipe no longer ends or
 blocks a vectored read

---
 pywasm/wasi.py | 61 +++++++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 33 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index aa47dcd..a6d7cea 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -753,21 +753,10 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        iovs_ptr = args[1]
-        iovs_len = args[2]
-        offs = args[3]
-        for _ in range(iovs_len):
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            data = os.pread(file.host_fd, elem_len, offs)
-            if len(data) == 0:
-                break
-            mems.put(elem_ptr, bytearray(data))
-            iovs_ptr += 8
-            offs += len(data)
-            if len(data) < elem_len:
-                break
-        mems.put_u32(args[4], offs - args[3])
+        iovs = self.help_iovs(mems, args[1], args[2])
+        data = os.pread(file.host_fd, sum([e[1] for e in iovs]), args[3])
+        self.help_scat(mems, iovs, data)
+        mems.put_u32(args[4], len(data))
         return [self.ERRNO_SUCCESS]
 
     def fd_prestat_dir_name(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -826,24 +815,14 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        iovs_ptr = args[1]
-        iovs_len = args[2]
-        size = 0
-        for _ in range(iovs_len):
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            data = [
-                lambda: os.read(file.host_fd, elem_len),
-                lambda: file.pipe.read(elem_len),
-            ][self.help_pipe(args[0])]()
-            if len(data) == 0:
-                break
-            mems.put(elem_ptr, bytearray(data))
-            iovs_ptr += 8
-            size += len(data)
-            if len(data) < elem_len:
-                break
-        mems.put_u32(args[3], size)
+        iovs = self.help_iovs(mems, args[1], args[2])
+        size = sum([e[1] for e in iovs])
+        data = [
+            lambda: os.read(file.host_fd, size),
+            lambda: file.pipe.read(size),
+        ][self.help_pipe(args[0])]()
+        self.help_scat(mems, iovs, data)
+        mems.put_u32(args[3], len(data))
         return [self.ERRNO_SUCCESS]
 
     def fd_readdir(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1008,12 +987,28 @@ class Preview1:
     def help_idir(self, fd: int) -> bool:
         return self.fd[fd].wasm_type == self.FILETYPE_DIRECTORY
 
+    def help_iovs(self, mems: pywasm.core.MemInst, ptr: int, cnt: int) -> typing.List[typing.Tuple[int, int]]:
+        # The address and length of each buffer of a scatter/gather vector. All of them must be inside the memory.
+        iovs = []
+        for i in range(cnt):
+            elem_ptr = mems.get_u32(ptr + i * 8)
+            elem_len = mems.get_u32(ptr + i * 8 + 4)
+            mems.get(elem_ptr, elem_len)
+            iovs.append((elem_ptr, elem_len))
+        return iovs
+
     def help_perm(self, fd: int, perm: int) -> bool:
         return self.fd[fd].wasm_rights_base & perm == 0
 
     def help_pipe(self, fd: int) -> bool:
         return fd < 3 and self.fd[fd].pipe is not None
 
+    def help_scat(self, mems: pywasm.core.MemInst, iovs: typing.List[typing.Tuple[int, int]], data: bytes) -> None:
+        # Distribute data over the buffers of a scatter/gather vector in order.
+        for elem_ptr, elem_len in iovs:
+            mems.put(elem_ptr, bytearray(data[:elem_len]))
+            data = data[elem_len:]
+
     def help_sock(self, fd: int) -> bool:
         return self.fd[fd].wasm_type not in [self.FILETYPE_SOCKET_DGRAM, self.FILETYPE_SOCKET_STREAM]
 
-- 
2.43.0


From 7c4b8a63e0609bb39a3eb78c5fe9ee323e899c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 21/41] fix: directory entries are measured in bytes and links
 are not followed

---
 pywasm/wasi.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index a6d7cea..b72b3ca 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -841,16 +841,17 @@ class Preview1:
         for name in result[cookie:]:
             if dirent + 24 > bufend:
                 break
-            info = os.stat(os.path.normpath(os.path.join(file.host_name, name)))
+            info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=False)
+            data = bytearray(os.fsencode(name))
             mems.put_u64(dirent, cookie + 1)
             mems.put_u64(dirent + 8, info.st_ino)
-            mems.put_u32(dirent + 16, len(name))
+            mems.put_u32(dirent + 16, len(data))
             mems.put_u8(dirent + 20, self.help_wasm_type(info))
             dirent += 24
-            if dirent + len(name) > bufend:
+            if dirent + len(data) > bufend:
                 break
-            mems.put(dirent, bytearray(name.encode()))
-            dirent += len(name)
+            mems.put(dirent, data)
+            dirent += len(data)
             cookie += 1
         mems.put_u32(args[4], dirent - args[1] if cookie >= len(result) else buflen)
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 19094ddcfd198591f39b0e8aee2a5d947b7618ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 22/41] fix: poll_oneoff waits until its deadlines and refuses
 what it does not know

---
 pywasm/wasi.py | 76 ++++++++++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 34 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index b72b3ca..b1c70aa 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1385,6 +1385,8 @@ class Preview1:
         csub = []
         rsub = []
         wsub = []
+        if nsub == 0:
+            return [self.ERRNO_INVAL]
         for i in range(nsub):
             # Each subscription is 48 bytes
             addr = subs + i * 48
@@ -1392,13 +1394,19 @@ class Preview1:
             eype = mems.get_u8(addr + 8)
             match eype:
                 case self.EVENTTYPE_CLOCK:
-                    ckid = mems.get_u64(addr + 16)
+                    ckid = mems.get_u32(addr + 16)
                     nval = mems.get_u64(addr + 24)
-                    flag = mems.get_u32(addr + 40)
+                    flag = mems.get_u16(addr + 40)
+                    match ckid:
+                        case self.CLOCKID_REALTIME | self.CLOCKID_MONOTONIC:
+                            pass
+                        case self.CLOCKID_PROCESS_CPUTIME_ID | self.CLOCKID_THREAD_CPUTIME_ID:
+                            return [self.ERRNO_NOTSUP]
+                        case _:
+                            return [self.ERRNO_INVAL]
                     ctim = self.help_time(ckid)
-                    delt = ctim - nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else nval
                     ends = nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else ctim + nval
-                    csub.append([userdata, ckid, delt, ends])
+                    csub.append([userdata, ckid, ends])
                 case self.EVENTTYPE_FD_READ:
                     file = mems.get_u32(addr + 16)
                     if self.help_badf(file):
@@ -1413,39 +1421,39 @@ class Preview1:
                     if self.help_perm(file, self.RIGHTS_POLL_FD_READWRITE):
                         return [self.ERRNO_NOTCAPABLE]
                     wsub.append([userdata, file])
-        # Calculate minimum timeout.
-        delt = 8
-        if csub:
-            delt = min([e[2] for e in csub]) / 1000000000.0
-        ryes, wyes, _ = select.select(
-            [self.fd[fd].host_fd for _, fd in rsub],
-            [self.fd[fd].host_fd for _, fd in wsub],
-            [],
-            delt,
-        )
+                case _:
+                    return [self.ERRNO_INVAL]
+        # Captured streams never block.
+        pipe = [fd for _, fd in rsub + wsub if self.help_pipe(fd)]
+        cyes = []
+        ryes = []
+        wyes = []
+        while not cyes and not ryes and not wyes:
+            # Calculate minimum timeout. Without a clock, wait for as long as it takes.
+            delt = min([max(e[2] - self.help_time(e[1]), 0) for e in csub], default=None)
+            if delt is not None:
+                delt = min(delt, 1000000000000000) / 1000000000.0
+            if pipe:
+                delt = 0
+            ryes, wyes, _ = select.select(
+                [self.fd[fd].host_fd for _, fd in rsub if fd not in pipe],
+                [self.fd[fd].host_fd for _, fd in wsub if fd not in pipe],
+                [],
+                delt,
+            )
+            ryes = [e for e in rsub if e[1] in pipe or self.fd[e[1]].host_fd in ryes]
+            wyes = [e for e in wsub if e[1] in pipe or self.fd[e[1]].host_fd in wyes]
+            cyes = [e for e in csub if self.help_time(e[1]) >= e[2]]
         neve = 0
-        for e in csub:
-            if self.help_time(e[1]) < e[3]:
-                continue
-            mems.put_u64(outs, e[0])
-            mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
-            mems.put_u8(outs + 10, self.EVENTTYPE_CLOCK)
-            outs += 32
-            neve += 1
-        for e in rsub:
-            if self.fd[e[1]].host_fd not in ryes:
-                continue
-            mems.put_u64(outs, e[0])
-            mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
-            mems.put_u8(outs + 10, self.EVENTTYPE_FD_READ)
-            outs += 32
-            neve += 1
-        for e in wsub:
-            if self.fd[e[1]].host_fd not in wyes:
-                continue
+        for e, eype in [
+            *[(e, self.EVENTTYPE_CLOCK) for e in cyes],
+            *[(e, self.EVENTTYPE_FD_READ) for e in ryes],
+            *[(e, self.EVENTTYPE_FD_WRITE) for e in wyes],
+        ]:
+            mems.put(outs, bytearray(32))
             mems.put_u64(outs, e[0])
             mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
-            mems.put_u8(outs + 10, self.EVENTTYPE_FD_WRITE)
+            mems.put_u8(outs + 10, eype)
             outs += 32
             neve += 1
         mems.put_u32(nout, neve)
-- 
2.43.0


From 31aae059c8abad6fce881c91bebbed991e2e7b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 23/41] fix: a failing host call gives an error code instead of
 ending the guest

---
 pywasm/wasi.py | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index b1c70aa..e0e2749 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1,4 +1,6 @@
+import contextlib
 import dataclasses
+import errno
 import fcntl
 import os
 import platform
@@ -623,10 +625,11 @@ class Preview1:
         if self.help_badf(args[0]):
             return [self.ERRNO_BADF]
         file = self.fd[args[0]]
+        file.wasm_status = self.FILE_STATUS_CLOSED
         if file.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
-            os.close(file.host_fd)
+            # Even if close fails, the host fd is gone.
             file.host_status = self.FILE_STATUS_CLOSED
-        file.wasm_status = self.FILE_STATUS_CLOSED
+            os.close(file.host_fd)
         return [self.ERRNO_SUCCESS]
 
     def fd_datasync(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -962,9 +965,23 @@ class Preview1:
         mask = [0xffffffff if e == pywasm.core.ValType.i32() else 0xffffffffffffffff for e in type.args]
 
         def call(m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-            return func(m, [a & b for a, b in zip(args, mask)])
+            try:
+                return func(m, [a & b for a, b in zip(args, mask)])
+            except OSError as e:
+                return [self.help_errn(e)]
+            except (OverflowError, MemoryError):
+                # A size or an offset which the host cannot represent.
+                return [self.ERRNO_INVAL]
+            except ValueError:
+                # Paths can be neither malformed unicode nor contain a null byte.
+                return [self.ERRNO_ILSEQ]
         return call
 
+    def help_errn(self, e: OSError) -> int:
+        # The error code of a failed host call.
+        name = errno.errorcode.get(e.errno or 0, '').removeprefix('E')
+        return getattr(self, f'ERRNO_{name}', self.ERRNO_IO)
+
     def help_escp(self, root: str, name: str) -> bool:
         return not os.path.normpath(os.path.join(root, name)).startswith(root)
 
@@ -1048,8 +1065,9 @@ class Preview1:
                 if e.wasm_type == self.FILETYPE_CHARACTER_DEVICE:
                     continue
                 if e.host_status != self.FILE_STATUS_CLOSED:
-                    os.close(e.host_fd)
                     e.host_status = self.FILE_STATUS_CLOSED
+                    with contextlib.suppress(OSError):
+                        os.close(e.host_fd)
 
     def path_create_directory(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Create a directory.
@@ -1208,15 +1226,20 @@ class Preview1:
             if platform.system().lower() == 'linux' and e.errno == 40:
                 return [self.ERRNO_LOOP]
             raise e
+        try:
+            info = os.fstat(host_fd)
+        except OSError:
+            os.close(host_fd)
+            raise
         rights_base = args[5]
         rights_root = args[6]
         # Drectory does not have the seek right.
-        if os.path.isdir(host_fd):
+        if stat.S_ISDIR(info.st_mode):
             void = self.RIGHTS_FD_SEEK
             rights_base &= ~void
             rights_root &= ~void
         # Files shouldn't have rights for path_* syscalls even if manually given.
-        if os.path.isfile(host_fd):
+        if stat.S_ISREG(info.st_mode):
             void = sum([
                 self.RIGHTS_PATH_CREATE_DIRECTORY,
                 self.RIGHTS_PATH_CREATE_FILE,
@@ -1247,7 +1270,7 @@ class Preview1:
             wasm_rights_base=rights_base,
             wasm_rights_root=rights_root,
             wasm_status=self.FILE_STATUS_OPENED,
-            wasm_type=self.help_wasm_type(os.fstat(host_fd)),
+            wasm_type=self.help_wasm_type(info),
         ))
         mems.put_u32(args[8], wasm_fd)
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 39d34959d3d1c30d8b627d34dbe9ed03339488fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 24/41] fix: link targets are measured in bytes

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index e0e2749..aaa0cbb 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1287,11 +1287,11 @@ class Preview1:
         if self.help_escp(file.wasm_name, name):
             return [self.ERRNO_PERM]
         try:
-            data = os.readlink(name, dir_fd=file.host_fd)
+            data = os.fsencode(os.readlink(name, dir_fd=file.host_fd))
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         size = min(len(data), args[4])
-        mems.put(args[3], bytearray(data[:size].encode()))
+        mems.put(args[3], bytearray(data[:size]))
         mems.put_u32(args[5], size)
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From 169cd79e0e6f585e50837f4043fa6c752c1ecee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 25/41] fix: paths are kept inside their directory, through
 links and under any name

---
 pywasm/wasi.py | 67 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index aaa0cbb..182f514 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -982,8 +982,43 @@ class Preview1:
         name = errno.errorcode.get(e.errno or 0, '').removeprefix('E')
         return getattr(self, f'ERRNO_{name}', self.ERRNO_IO)
 
-    def help_escp(self, root: str, name: str) -> bool:
-        return not os.path.normpath(os.path.join(root, name)).startswith(root)
+    def help_escp(self, file: File, name: str, foll: int) -> bool:
+        # Whether a name leads out of the directory, by itself or through a symbolic link.
+        if '\0' in name:
+            raise ValueError('embedded null byte')
+        if name.startswith('/'):
+            return True
+        path: typing.List[str] = []
+        todo = name.split('/')
+        link = 0
+        while todo:
+            elem = todo.pop(0)
+            if elem in ['', '.']:
+                continue
+            if elem == '..':
+                if not path:
+                    return True
+                path.pop()
+                continue
+            path.append(elem)
+            if not todo and not foll:
+                break
+            try:
+                dest = os.readlink('/'.join(path), dir_fd=file.host_fd)
+            except OSError as e:
+                if e.errno in [errno.EINVAL, errno.ENOENT, errno.ENOTDIR]:
+                    # Not a symbolic link.
+                    continue
+                raise
+            if dest.startswith('/'):
+                return True
+            link += 1
+            if link > 40:
+                # The host refuses to follow so many links.
+                break
+            path.pop()
+            todo = dest.split('/') + todo
+        return False
 
     def help_wasm_type(self, info: os.stat_result) -> int:
         match info.st_mode:
@@ -1078,7 +1113,7 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
+        if self.help_escp(file, name, 0):
             return [self.ERRNO_PERM]
         try:
             os.mkdir(name, dir_fd=file.host_fd)
@@ -1096,7 +1131,7 @@ class Preview1:
         file = self.fd[args[0]]
         flag = args[1]
         name = mems.get(args[2], args[3]).decode()
-        if self.help_escp(file.wasm_name, name):
+        if self.help_escp(file, name, flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW):
             return [self.ERRNO_PERM]
         try:
             info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
@@ -1126,7 +1161,7 @@ class Preview1:
         file = self.fd[args[0]]
         flag = args[1]
         name = mems.get(args[2], args[3]).decode()
-        if self.help_escp(file.wasm_name, name):
+        if self.help_escp(file, name, flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW):
             return [self.ERRNO_PERM]
         info = os.stat(name, dir_fd=file.host_fd)
         atim = info.st_atime_ns
@@ -1158,11 +1193,11 @@ class Preview1:
         dest = self.fd[args[4]]
         stem_name = mems.get(args[2], args[3]).decode()
         dest_name = mems.get(args[5], args[6]).decode()
-        if self.help_escp(stem.wasm_name, stem_name):
+        foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
+        if self.help_escp(stem, stem_name, foll):
             return [self.ERRNO_PERM]
-        if self.help_escp(dest.wasm_name, dest_name):
+        if self.help_escp(dest, dest_name, 0):
             return [self.ERRNO_PERM]
-        foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
         try:
             os.link(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd, follow_symlinks=foll)
         except FileExistsError:
@@ -1186,7 +1221,7 @@ class Preview1:
         host_name = os.path.normpath(os.path.join(file.host_name, name))
         if '\0' in name:
             return [self.ERRNO_ILSEQ]
-        if self.help_escp(file.host_name, name):
+        if self.help_escp(file, name, args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW):
             return [self.ERRNO_PERM]
         flag = 0
         if args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW == 0:
@@ -1284,7 +1319,7 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
+        if self.help_escp(file, name, 0):
             return [self.ERRNO_PERM]
         try:
             data = os.fsencode(os.readlink(name, dir_fd=file.host_fd))
@@ -1304,7 +1339,7 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
+        if self.help_escp(file, name, 0):
             return [self.ERRNO_PERM]
         try:
             os.rmdir(name, dir_fd=file.host_fd)
@@ -1331,9 +1366,9 @@ class Preview1:
         dest = self.fd[args[3]]
         stem_name = mems.get(args[1], args[2]).decode()
         dest_name = mems.get(args[4], args[5]).decode()
-        if self.help_escp(stem.wasm_name, stem_name):
+        if self.help_escp(stem, stem_name, 0):
             return [self.ERRNO_PERM]
-        if self.help_escp(dest.wasm_name, dest_name):
+        if self.help_escp(dest, dest_name, 0):
             return [self.ERRNO_PERM]
         try:
             os.rename(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd)
@@ -1363,9 +1398,9 @@ class Preview1:
         file = self.fd[args[2]]
         stem = mems.get(args[0], args[1]).decode()
         dest = mems.get(args[3], args[4]).decode()
-        if self.help_escp(file.wasm_name, stem):
+        if os.path.isabs(stem) or os.path.normpath(stem).split('/')[0] == '..':
             return [self.ERRNO_PERM]
-        if self.help_escp(file.wasm_name, dest):
+        if self.help_escp(file, dest, 0):
             return [self.ERRNO_PERM]
         try:
             os.symlink(stem, dest, dir_fd=file.host_fd)
@@ -1386,7 +1421,7 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
+        if self.help_escp(file, name, 0):
             return [self.ERRNO_PERM]
         try:
             os.unlink(name, dir_fd=file.host_fd)
-- 
2.43.0


From a99dd360415ffc11a6a2329aec7866df9e39d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 26/41] fix: file status, times and flags concern the file
 itself

---
 pywasm/wasi.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 182f514..a54d9fc 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -659,7 +659,7 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_FD_FDSTAT_SET_FLAGS):
             return [self.ERRNO_NOTCAPABLE]
         file = self.fd[args[0]]
-        fyes = self.FDFLAGS_APPEND | self.FDFLAGS_APPEND
+        fyes = self.FDFLAGS_APPEND | self.FDFLAGS_NONBLOCK
         if file.wasm_flag ^ args[1] | fyes != fyes:
             # Only support changing the NONBLOCK or APPEND flags.
             return [self.ERRNO_INVAL]
@@ -698,7 +698,7 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        info = os.stat(file.host_name)
+        info = os.stat(file.host_fd)
         mems.put_u64(args[1], 1)
         mems.put_u64(args[1] + 8, info.st_ino)
         mems.put_u8(args[1] + 16, file.wasm_type)
@@ -742,7 +742,7 @@ class Preview1:
         if args[3] & self.FSTFLAGS_MTIM:
             mtim = args[2]
         if args[3] & self.FSTFLAGS_MTIM_NOW:
-            mtim = args[2]
+            mtim = time.time_ns()
         os.utime(file.host_fd, ns=(atim, mtim))
         return [self.ERRNO_SUCCESS]
 
@@ -1163,7 +1163,8 @@ class Preview1:
         name = mems.get(args[2], args[3]).decode()
         if self.help_escp(file, name, flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW):
             return [self.ERRNO_PERM]
-        info = os.stat(name, dir_fd=file.host_fd)
+        foll = flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW
+        info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=foll)
         atim = info.st_atime_ns
         if args[6] & self.FSTFLAGS_ATIM:
             atim = args[4]
@@ -1175,7 +1176,7 @@ class Preview1:
         if args[6] & self.FSTFLAGS_MTIM_NOW:
             mtim = time.time_ns()
         try:
-            os.utime(name, ns=(atim, mtim), dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
+            os.utime(name, ns=(atim, mtim), dir_fd=file.host_fd, follow_symlinks=foll)
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         return [self.ERRNO_SUCCESS]
@@ -1244,6 +1245,14 @@ class Preview1:
             flag |= os.O_RDWR
         if args[7] & self.FDFLAGS_APPEND:
             flag |= os.O_APPEND
+        if args[7] & self.FDFLAGS_DSYNC:
+            flag |= os.O_DSYNC
+        if args[7] & self.FDFLAGS_NONBLOCK:
+            flag |= os.O_NONBLOCK
+        if args[7] & (self.FDFLAGS_RSYNC | self.FDFLAGS_SYNC):
+            flag |= os.O_SYNC
+        if args[7] >= self.FDFLAGS_SYNC << 1:
+            return [self.ERRNO_INVAL]
         wasm_fd = len(self.fd)
         try:
             host_fd = os.open(name, flag, 0o644, dir_fd=self.fd[args[0]].host_fd)
-- 
2.43.0


From 11f970bb25c57b3d92264be6d4c6b805edcc3e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 27/41] fix: an opened file has no right its directory does not
 pass on

---
 pywasm/wasi.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index a54d9fc..13381f8 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1224,11 +1224,16 @@ class Preview1:
             return [self.ERRNO_ILSEQ]
         if self.help_escp(file, name, args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW):
             return [self.ERRNO_PERM]
+        # Only the rights which the directory passes on are available.
+        rights_base = args[5] & file.wasm_rights_root
+        rights_root = args[6] & file.wasm_rights_root
         flag = 0
         if args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW == 0:
             flag |= os.O_NOFOLLOW
         if args[4] & self.OFLAGS_CREAT:
             flag |= os.O_CREAT
+            if self.help_perm(args[0], self.RIGHTS_PATH_CREATE_FILE):
+                return [self.ERRNO_NOTCAPABLE]
         if args[4] & self.OFLAGS_DIRECTORY:
             flag |= os.O_DIRECTORY
         if args[4] & self.OFLAGS_EXCL:
@@ -1237,11 +1242,11 @@ class Preview1:
             flag |= os.O_TRUNC
             if file.wasm_rights_base & self.RIGHTS_PATH_FILESTAT_SET_SIZE == 0:
                 return [self.ERRNO_PERM]
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ:
             flag |= os.O_RDONLY
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_WRITE:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_WRITE:
             flag |= os.O_WRONLY
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE:
             flag |= os.O_RDWR
         if args[7] & self.FDFLAGS_APPEND:
             flag |= os.O_APPEND
@@ -1275,8 +1280,6 @@ class Preview1:
         except OSError:
             os.close(host_fd)
             raise
-        rights_base = args[5]
-        rights_root = args[6]
         # Drectory does not have the seek right.
         if stat.S_ISDIR(info.st_mode):
             void = self.RIGHTS_FD_SEEK
-- 
2.43.0


From 1267b4da937435f7a9ad8c4776b8d3e0a6b48e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 28/41] fix: renumbering, closing and the end of the program
 keep track of every host descriptor

---
 pywasm/wasi.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 13381f8..ac7edd2 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -409,6 +409,10 @@ class Preview1:
         wasm_rights_root: int
         wasm_status: int
         wasm_type: int
+        # Standard streams are borrowed from the host, everything else is closed at the end.
+        host_borrow: bool = False
+        # Whether the fd is a directory given by the embedder.
+        wasm_prestat: bool = False
 
     def __init__(self, args: typing.List[str], dirs: typing.Dict[str, str], envs: typing.Dict[str, str]):
         self.args = args
@@ -429,6 +433,7 @@ class Preview1:
             wasm_rights_root=0,
             wasm_status=self.FILE_STATUS_OPENED,
             wasm_type=self.FILETYPE_CHARACTER_DEVICE,
+            host_borrow=True,
         ))
         self.fd.append(self.File(
             host_fd=sys.stdout.fileno(),
@@ -443,6 +448,7 @@ class Preview1:
             wasm_rights_root=0,
             wasm_status=self.FILE_STATUS_OPENED,
             wasm_type=self.FILETYPE_CHARACTER_DEVICE,
+            host_borrow=True,
         ))
         self.fd.append(self.File(
             host_fd=sys.stderr.fileno(),
@@ -457,6 +463,7 @@ class Preview1:
             wasm_rights_root=0,
             wasm_status=self.FILE_STATUS_OPENED,
             wasm_type=self.FILETYPE_CHARACTER_DEVICE,
+            host_borrow=True,
         ))
         for k, v in sorted(self.dirs.items()):
             k = os.path.normpath(k)
@@ -474,6 +481,7 @@ class Preview1:
                 wasm_rights_root=0b00001111111111111111111111111111,
                 wasm_status=self.FILE_STATUS_OPENED,
                 wasm_type=self.FILETYPE_DIRECTORY,
+                wasm_prestat=True,
             ))
         # By default, when wasi applications call proc_exit(), wasi.main() will return with the exit code specified
         # rather than terminating the process. Setting this option to 0 will cause the python process to exit with the
@@ -626,7 +634,7 @@ class Preview1:
             return [self.ERRNO_BADF]
         file = self.fd[args[0]]
         file.wasm_status = self.FILE_STATUS_CLOSED
-        if file.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
+        if not file.host_borrow:
             # Even if close fails, the host fd is gone.
             file.host_status = self.FILE_STATUS_CLOSED
             os.close(file.host_fd)
@@ -764,7 +772,7 @@ class Preview1:
 
     def fd_prestat_dir_name(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or not self.fd[args[0]].wasm_prestat:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
@@ -776,7 +784,7 @@ class Preview1:
 
     def fd_prestat_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or not self.fd[args[0]].wasm_prestat:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
@@ -862,21 +870,25 @@ class Preview1:
     def fd_renumber(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         if self.help_badf(args[0]) or self.help_badf(args[1]):
             return [self.ERRNO_BADF]
+        if args[0] == args[1]:
+            return [self.ERRNO_SUCCESS]
         stem = self.fd[args[0]]
         dest = self.fd[args[1]]
-        if dest.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
-            os.close(dest.host_fd)
+        if not dest.host_borrow:
+            with contextlib.suppress(OSError):
+                os.close(dest.host_fd)
+        dest.host_borrow = stem.host_borrow
         dest.host_fd = stem.host_fd
         dest.host_flag = stem.host_flag
         dest.host_name = stem.host_name
         dest.host_status = stem.host_status
         dest.pipe = stem.pipe
-        dest.wasm_fd = stem.wasm_fd
         dest.wasm_flag = stem.wasm_flag
         dest.wasm_name = stem.wasm_name
         dest.wasm_rights_base = stem.wasm_rights_base
         dest.wasm_rights_root = stem.wasm_rights_root
         dest.wasm_status = stem.wasm_status
+        dest.wasm_prestat = stem.wasm_prestat
         dest.wasm_type = stem.wasm_type
         stem.host_status = self.FILE_STATUS_CLOSED
         stem.wasm_status = self.FILE_STATUS_CLOSED
@@ -1054,7 +1066,7 @@ class Preview1:
         return self.fd[fd].wasm_rights_base & perm == 0
 
     def help_pipe(self, fd: int) -> bool:
-        return fd < 3 and self.fd[fd].pipe is not None
+        return self.fd[fd].pipe is not None
 
     def help_scat(self, mems: pywasm.core.MemInst, iovs: typing.List[typing.Tuple[int, int]], data: bytes) -> None:
         # Distribute data over the buffers of a scatter/gather vector in order.
@@ -1096,8 +1108,8 @@ class Preview1:
             for e in self.fd[self.FD_STDOUT: self.FD_STDERR + 1]:
                 if e.pipe:
                     e.pipe.seek(0)
-            for e in self.fd[self.FD_STDERR + 1:]:
-                if e.wasm_type == self.FILETYPE_CHARACTER_DEVICE:
+            for e in self.fd:
+                if e.host_borrow:
                     continue
                 if e.host_status != self.FILE_STATUS_CLOSED:
                     e.host_status = self.FILE_STATUS_CLOSED
-- 
2.43.0


From a272d56e6e826af684bb85412678de2b4c920b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 29/41] fix: allocating and seeking leave the offset alone
 unless they succeed

---
 pywasm/wasi.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index ac7edd2..13fd12c 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -622,10 +622,7 @@ class Preview1:
         size = args[1] + args[2] - os.stat(file.host_fd).st_size
         if size <= 0:
             return [self.ERRNO_SUCCESS]
-        offs = os.lseek(file.host_fd, 0, os.SEEK_CUR)
-        os.lseek(file.host_fd, 0, os.SEEK_END)
-        os.write(file.host_fd, bytearray(size))
-        os.lseek(file.host_fd, offs, os.SEEK_SET)
+        os.ftruncate(file.host_fd, args[1] + args[2])
         return [self.ERRNO_SUCCESS]
 
     def fd_close(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -762,6 +759,8 @@ class Preview1:
             return [self.ERRNO_ISDIR]
         if self.help_perm(args[0], self.RIGHTS_FD_READ):
             return [self.ERRNO_NOTCAPABLE]
+        if self.help_pipe(args[0]):
+            return [self.ERRNO_SPIPE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         iovs = self.help_iovs(mems, args[1], args[2])
@@ -801,6 +800,8 @@ class Preview1:
             return [self.ERRNO_ISDIR]
         if self.help_perm(args[0], self.RIGHTS_FD_WRITE):
             return [self.ERRNO_NOTCAPABLE]
+        if self.help_pipe(args[0]):
+            return [self.ERRNO_SPIPE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         iovs_ptr = args[1]
@@ -909,10 +910,9 @@ class Preview1:
         file = self.fd[args[0]]
         # The offset is the only signed number of the whole interface.
         diff = args[1] - (args[1] >> 63 << 64)
-        ocur = os.lseek(file.host_fd, 0, args[2])
-        # Seek before byte 0 is an error though.
-        if ocur + diff < 0:
+        if args[2] not in [self.WHENCE_SET, self.WHENCE_CUR, self.WHENCE_END]:
             return [self.ERRNO_INVAL]
+        # Seek before byte 0 is an error though.
         offs = os.lseek(file.host_fd, diff, args[2])
         mems.put_u64(args[3], offs)
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 5d23179caf1a620f55a04d5571f3d6304c0f9d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 30/41] fix: accepted sockets stay open and only cut off
 messages are reported as such

---
 pywasm/wasi.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 13fd12c..24d77eb 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1573,6 +1573,8 @@ class Preview1:
             return [self.ERRNO_NOTSOCK]
         if self.help_perm(args[0], self.RIGHTS_SOCK_ACCEPT):
             return [self.ERRNO_NOTCAPABLE]
+        if args[1] >= self.FDFLAGS_SYNC << 1:
+            return [self.ERRNO_INVAL]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         kype = {
@@ -1580,13 +1582,15 @@ class Preview1:
             self.FILETYPE_SOCKET_DGRAM: socket.SOCK_DGRAM,
         }[file.wasm_type]
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
-        if args[1] & self.FDFLAGS_NONBLOCK:
-            sock.setblocking(False)
         conn, _ = sock.accept()
-        host_fd = conn.fileno()
+        conn.setblocking(args[1] & self.FDFLAGS_NONBLOCK == 0)
+        # The fd outlives the socket object.
+        host_flag = fcntl.fcntl(conn.fileno(), fcntl.F_GETFL)
+        host_fd = conn.detach()
         wasm_fd = len(self.fd)
         self.fd.append(self.File(
             host_fd=host_fd,
+            host_flag=host_flag,
             host_name=file.host_name,
             host_status=self.FILE_STATUS_OPENED,
             pipe=None,
@@ -1631,13 +1635,10 @@ class Preview1:
             size_all += elem_len
             iovs_ptr += 8
         try:
-            data = sock.recv(size_all, ri_flags)
+            data, _, flag, _ = sock.recvmsg(size_all, 0, ri_flags)
         except BrokenPipeError:
             return [self.ERRNO_PIPE]
         data_len = len(data)
-        # If no data received, check for connection closure.
-        if data_len == 0 and file.wasm_type == self.FILETYPE_SOCKET_STREAM:
-            ro_flags |= self.EVENTRWFLAGS_FD_READWRITE_HANGUP
         # Distribute data across iovec buffers.
         iovs_ptr = args[1]
         offs = 0
@@ -1651,10 +1652,10 @@ class Preview1:
                 mems.put(elem_ptr, bytearray(data[offs:offs + size]))
                 offs += size
             iovs_ptr += 8
-        if data_len < size_all:
+        if flag & socket.MSG_TRUNC:
             ro_flags |= self.ROFLAGS_RECV_DATA_TRUNCATED
         mems.put_u32(args[4], data_len)
-        mems.put_u32(args[5], ro_flags)
+        mems.put_u16(args[5], ro_flags)
         return [self.ERRNO_SUCCESS]
 
     def sock_send(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From d6338e88fa02e6fbea540fd2a64ccc5069132964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 31/41] fix: descriptor flags stay as they are when the host
 refuses to change them

---
 pywasm/wasi.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 24d77eb..e8bebda 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -668,17 +668,17 @@ class Preview1:
         if file.wasm_flag ^ args[1] | fyes != fyes:
             # Only support changing the NONBLOCK or APPEND flags.
             return [self.ERRNO_INVAL]
-        file.host_flag &= ~os.O_APPEND
-        file.host_flag &= ~os.O_NONBLOCK
-        file.wasm_flag &= ~self.FDFLAGS_APPEND
-        file.wasm_flag &= ~self.FDFLAGS_NONBLOCK
+        host_flag = file.host_flag & ~os.O_APPEND & ~os.O_NONBLOCK
+        wasm_flag = file.wasm_flag & ~fyes
         if args[1] & self.FDFLAGS_APPEND:
-            file.host_flag |= os.O_APPEND
-            file.wasm_flag |= self.FDFLAGS_APPEND
+            host_flag |= os.O_APPEND
+            wasm_flag |= self.FDFLAGS_APPEND
         if args[1] & self.FDFLAGS_NONBLOCK:
-            file.host_flag |= os.O_NONBLOCK
-            file.wasm_flag |= self.FDFLAGS_NONBLOCK
-        fcntl.fcntl(file.host_fd, fcntl.F_SETFL, file.host_flag)
+            host_flag |= os.O_NONBLOCK
+            wasm_flag |= self.FDFLAGS_NONBLOCK
+        fcntl.fcntl(file.host_fd, fcntl.F_SETFL, host_flag)
+        file.host_flag = host_flag
+        file.wasm_flag = wasm_flag
         return [self.ERRNO_SUCCESS]
 
     def fd_fdstat_set_rights(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 8917362096d892369a78f09e7a75bfd869163786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 32/41] fix: host errors with more than one name keep their
 error code

---
 pywasm/wasi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index e8bebda..e4943aa 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -991,8 +991,11 @@ class Preview1:
 
     def help_errn(self, e: OSError) -> int:
         # The error code of a failed host call.
-        name = errno.errorcode.get(e.errno or 0, '').removeprefix('E')
-        return getattr(self, f'ERRNO_{name}', self.ERRNO_IO)
+        for name, code in vars(Preview1).items():
+            # Some host errors have more than one name, so compare their numbers.
+            if name.startswith('ERRNO_') and getattr(errno, name.replace('ERRNO_', 'E'), -1) == e.errno:
+                return code
+        return self.ERRNO_IO
 
     def help_escp(self, file: File, name: str, foll: int) -> bool:
         # Whether a name leads out of the directory, by itself or through a symbolic link.
-- 
2.43.0


From 5d4e94293fe0704930fd7b2d1816dc5ac16e71ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 33/41] fix: read a v128 argument of the command line without
 dropping two digits

---
 pywasm/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/__main__.py b/pywasm/__main__.py
index 6e66c31..7987f07 100644
--- a/pywasm/__main__.py
+++ b/pywasm/__main__.py
@@ -49,7 +49,7 @@ def main_wasm():
             func_args.append(float(e[1]))
             continue
         if e[0] == pywasm.ValType.v128():
-            func_args.append(bytearray.fromhex(e[1][2:]))
+            func_args.append(bytearray.fromhex(e[1].removeprefix('0x')))
             continue
         assert 0
     rets = runtime.invocate(inst, args.func, func_args)
-- 
2.43.0


From 70340ccf304a3485aa42b093217f1c0d473c8eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 34/41] fix: pass arguments, environment and directory names
 that are no UTF-8 as the bytes they are

---
 pywasm/wasi.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index e4943aa..bf5b865 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -495,7 +495,7 @@ class Preview1:
         argv = args[0]
         argv_buf = args[1]
         for e in self.args:
-            data = bytearray(e.encode())
+            data = bytearray(e.encode(errors='surrogateescape'))
             mems.put_u32(argv, argv_buf)
             argv += 4
             mems.put(argv_buf, data)
@@ -508,7 +508,7 @@ class Preview1:
         # Return command-line argument data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.args))
-        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.args]))
+        mems.put_u32(args[1], sum([len(e.encode(errors='surrogateescape')) + 1 for e in self.args]))
         return [self.ERRNO_SUCCESS]
 
     def bind(self, runtime: pywasm.core.Runtime) -> None:
@@ -586,7 +586,7 @@ class Preview1:
         environ = args[0]
         environ_buf = args[1]
         for e in self.envs:
-            data = bytearray(e.encode())
+            data = bytearray(e.encode(errors='surrogateescape'))
             mems.put_u32(environ, environ_buf)
             environ += 4
             mems.put(environ_buf, data)
@@ -599,7 +599,7 @@ class Preview1:
         # Return environment variable data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.envs))
-        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.envs]))
+        mems.put_u32(args[1], sum([len(e.encode(errors='surrogateescape')) + 1 for e in self.envs]))
         return [self.ERRNO_SUCCESS]
 
     def fd_advise(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -775,7 +775,7 @@ class Preview1:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = bytearray(file.wasm_name.encode())
+        name = bytearray(file.wasm_name.encode(errors='surrogateescape'))
         if len(name) > args[2]:
             return [self.ERRNO_NAMETOOLONG]
         mems.put(args[1], name)
@@ -787,7 +787,7 @@ class Preview1:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = bytearray(file.wasm_name.encode())
+        name = bytearray(file.wasm_name.encode(errors='surrogateescape'))
         mems.put_u8(args[1], self.PREOPENTYPE_DIR)
         mems.put_u32(args[1] + 4, len(name))
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From b6d68178dacf65d733c3401da9a9415d8eaab008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 35/41] fix: refuse to read a clock that does not exist

---
 pywasm/wasi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index bf5b865..b3f053c 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -569,12 +569,16 @@ class Preview1:
 
     def clock_res_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the resolution of a clock.
+        if args[0] > self.CLOCKID_THREAD_CPUTIME_ID:
+            return [self.ERRNO_INVAL]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u64(args[1], 1)
         return [self.ERRNO_SUCCESS]
 
     def clock_time_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the time value of a clock.
+        if args[0] > self.CLOCKID_THREAD_CPUTIME_ID:
+            return [self.ERRNO_INVAL]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u64(args[2], self.help_time(args[0]))
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 64fe4d02dbdf74d69aee6d1e86d3db20845d502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 36/41] fix: take random_get from the system, not from a
 generator its embedder may have seeded

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index b3f053c..fa42c2e 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -5,7 +5,6 @@ import fcntl
 import os
 import platform
 import pywasm.core
-import random
 import select
 import socket
 import stat
@@ -1564,7 +1563,8 @@ class Preview1:
     def random_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Write high-quality random data into a buffer.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
-        mems.put(args[0], bytearray(random.randbytes(args[1])))
+        size = len(mems.get(args[0], args[1]))
+        mems.put(args[0], bytearray(os.urandom(size)))
         return [self.ERRNO_SUCCESS]
 
     def sched_yield(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 736be8cebe623a2e82c9e06140dc3706fb28eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 37/41] fix: a program that ends does not clear the stack of
 the code which ran it

---
 pywasm/wasi.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index fa42c2e..7a154e3 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1102,9 +1102,6 @@ class Preview1:
         try:
             runtime.invocate(module, '_start', [])
         except Exception as e:
-            runtime.machine.stack.frame.clear()
-            runtime.machine.stack.label.clear()
-            runtime.machine.stack.value.clear()
             if len(e.args) >= 1 and e.args[0] == SystemExit:
                 return e.args[1]
             raise e
-- 
2.43.0


From 3ce20ac85ea2664e2ff87cb8ffcab04c5fef05a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 38/41] fix: report the times of files which a timestamp cannot
 hold as the nearest one

---
 pywasm/wasi.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 7a154e3..a46d157 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -712,9 +712,9 @@ class Preview1:
         mems.put_u8(args[1] + 16, file.wasm_type)
         mems.put_u64(args[1] + 24, info.st_nlink)
         mems.put_u64(args[1] + 32, info.st_size)
-        mems.put_u64(args[1] + 40, info.st_atime_ns)
-        mems.put_u64(args[1] + 48, info.st_mtime_ns)
-        mems.put_u64(args[1] + 56, info.st_ctime_ns)
+        mems.put_u64(args[1] + 40, self.help_stamp(info.st_atime_ns))
+        mems.put_u64(args[1] + 48, self.help_stamp(info.st_mtime_ns))
+        mems.put_u64(args[1] + 56, self.help_stamp(info.st_ctime_ns))
         return [self.ERRNO_SUCCESS]
 
     def fd_filestat_set_size(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1083,6 +1083,11 @@ class Preview1:
     def help_sock(self, fd: int) -> bool:
         return self.fd[fd].wasm_type not in [self.FILETYPE_SOCKET_DGRAM, self.FILETYPE_SOCKET_STREAM]
 
+    def help_stamp(self, time: int) -> int:
+        # A timestamp is unsigned, so the times before 1970 or after 2554 which a file may have are reported as the
+        # nearest one.
+        return min(max(time, 0), (1 << 64) - 1)
+
     def help_time(self, id: int) -> int:
         match id:
             case self.CLOCKID_REALTIME:
@@ -1157,9 +1162,9 @@ class Preview1:
         mems.put_u8(args[4] + 16, self.help_wasm_type(info))
         mems.put_u64(args[4] + 24, info.st_nlink)
         mems.put_u64(args[4] + 32, info.st_size)
-        mems.put_u64(args[4] + 40, info.st_atime_ns)
-        mems.put_u64(args[4] + 48, info.st_mtime_ns)
-        mems.put_u64(args[4] + 56, info.st_ctime_ns)
+        mems.put_u64(args[4] + 40, self.help_stamp(info.st_atime_ns))
+        mems.put_u64(args[4] + 48, self.help_stamp(info.st_mtime_ns))
+        mems.put_u64(args[4] + 56, self.help_stamp(info.st_ctime_ns))
         return [self.ERRNO_SUCCESS]
 
     def path_filestat_set_times(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 73951923113d9c6f1b3689c74c9a48b5a1992779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:14 +0000
Subject: [PATCH 39/41] fix: list the else branch of an if when tracing shows
 the code

---
 pywasm/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index cbd4b2c..eacd6f7 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -363,6 +363,10 @@ class Inst:
         if self.opcode in [pywasm.opcode.block, pywasm.opcode.loop, pywasm.opcode.if_then]:
             for e in self.args[1]:
                 e.into_disasm(indent + 4)
+        if self.opcode == pywasm.opcode.if_then and self.args[2]:
+            pywasm.log.debugln(f'{prefix}{pywasm.opcode.name[pywasm.opcode.else_fi]}')
+            for e in self.args[2]:
+                e.into_disasm(indent + 4)
 
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
-- 
2.43.0


From 1efe86dbb50c585fdebe12721589192f664a293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 40/41] fix: a program that has ended has no open descriptors
 any more

---
 pywasm/wasi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index a46d157..18b3c8e 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1119,6 +1119,7 @@ class Preview1:
             for e in self.fd:
                 if e.host_borrow:
                     continue
+                e.wasm_status = self.FILE_STATUS_CLOSED
                 if e.host_status != self.FILE_STATUS_CLOSED:
                     e.host_status = self.FILE_STATUS_CLOSED
                     with contextlib.suppress(OSError):
-- 
2.43.0


From b0b2ea9135382682be0f9a8e00e21a0572a528f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 41/41] fix: fd_readdir cookies stay valid while entries are
 created or removed

---
 pywasm/wasi.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 18b3c8e..36d045a 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -412,6 +412,8 @@ class Preview1:
         host_borrow: bool = False
         # Whether the fd is a directory given by the embedder.
         wasm_prestat: bool = False
+        # The listing of a directory, as of the last call of fd_readdir from the start.
+        wasm_entries: typing.Optional[typing.List[str]] = None
 
     def __init__(self, args: typing.List[str], dirs: typing.Dict[str, str], envs: typing.Dict[str, str]):
         self.args = args
@@ -852,11 +854,19 @@ class Preview1:
         buflen = args[2]
         bufend = dirent + buflen
         cookie = args[3]
-        result = ['.', '..', *sorted(os.listdir(file.host_fd))]
+        # Cookies are positions in a listing, so it is kept until the guest starts over: entries which are created or
+        # removed in the meantime must not move the others.
+        if cookie == self.DIRCOOKIE_START or file.wasm_entries is None:
+            file.wasm_entries = ['.', '..', *sorted(os.listdir(file.host_fd))]
+        result = file.wasm_entries
         for name in result[cookie:]:
             if dirent + 24 > bufend:
                 break
-            info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=False)
+            try:
+                info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=False)
+            except FileNotFoundError:
+                cookie += 1
+                continue
             data = bytearray(os.fsencode(name))
             mems.put_u64(dirent, cookie + 1)
             mems.put_u64(dirent + 8, info.st_ino)
@@ -887,6 +897,7 @@ class Preview1:
         dest.host_name = stem.host_name
         dest.host_status = stem.host_status
         dest.pipe = stem.pipe
+        dest.wasm_entries = stem.wasm_entries
         dest.wasm_flag = stem.wasm_flag
         dest.wasm_name = stem.wasm_name
         dest.wasm_rights_base = stem.wasm_rights_base
-- 
2.43.0

