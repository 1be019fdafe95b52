From 09a2af5b6958e906347217117d996d09351b7f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 01/54] fix: i64.div_u raised OverflowError for quotients of
 2^63 and above

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index ddb7bdd..78d9b63 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2307,7 +2307,7 @@ class Machine:
                 case pywasm.opcode.i64_div_u:
                     b = self.stack.value.pop().into_u64()
                     a = self.stack.value.pop().into_u64()
-                    c = ValInst.from_i64(pywasm.arith.u64.div(a, b))
+                    c = ValInst.from_u64(pywasm.arith.u64.div(a, b))
                     self.stack.value.append(c)
                 case pywasm.opcode.i64_rem_s:
                     b = self.stack.value.pop().into_i64()
-- 
2.43.0


From dd1da294b2256f78db0929ec83c449fc8225afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 02/54] fix: float rounding instructions lost the sign of zero
 and kept signaling nans

---
 pywasm/arith.py | 20 ++++++++++++++++++++
 pywasm/core.py  | 32 ++++++++++++++++----------------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index ce54dee..55d7c57 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -193,6 +193,26 @@ class F64:
                 c = a / b
         return c
 
+    def ceil(self, a: float) -> float:
+        if math.isnan(a) or math.isinf(a):
+            return a + a
+        return math.copysign(math.ceil(a), a)
+
+    def floor(self, a: float) -> float:
+        if math.isnan(a) or math.isinf(a):
+            return a + a
+        return math.copysign(math.floor(a), a)
+
+    def trunc(self, a: float) -> float:
+        if math.isnan(a) or math.isinf(a):
+            return a + a
+        return math.copysign(math.trunc(a), a)
+
+    def nearest(self, a: float) -> float:
+        if math.isnan(a) or math.isinf(a):
+            return a + a
+        return math.copysign(round(a), a)
+
     def min(self, a: float, b: float) -> float:
         c = min(a, b)
         if math.isnan(a):
diff --git a/pywasm/core.py b/pywasm/core.py
index 78d9b63..7bb6be8 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2371,22 +2371,22 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_ceil:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.ceil(a))
+                    b = pywasm.arith.f64.ceil(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_floor:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.floor(a))
+                    b = pywasm.arith.f64.floor(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_trunc:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.trunc(a))
+                    b = pywasm.arith.f64.trunc(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_nearest:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(round(a))
+                    b = pywasm.arith.f64.nearest(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_sqrt:
@@ -2444,22 +2444,22 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f64_ceil:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.ceil(a))
+                    b = pywasm.arith.f64.ceil(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_floor:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.floor(a))
+                    b = pywasm.arith.f64.floor(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_trunc:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.trunc(a))
+                    b = pywasm.arith.f64.trunc(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_nearest:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(round(a))
+                    b = pywasm.arith.f64.nearest(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_sqrt:
@@ -3368,22 +3368,22 @@ class Machine:
                     self.stack.value.append(e)
                 case pywasm.opcode.f32x4_ceil:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.ceil(e)) for e in a]
+                    b = [pywasm.arith.f64.ceil(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_floor:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.floor(e)) for e in a]
+                    b = [pywasm.arith.f64.floor(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_trunc:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.trunc(e)) for e in a]
+                    b = [pywasm.arith.f64.trunc(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_nearest:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(round(e)) for e in a]
+                    b = [pywasm.arith.f64.nearest(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_shl:
@@ -3439,12 +3439,12 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_ceil:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.ceil(e)) for e in a]
+                    b = [pywasm.arith.f64.ceil(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64x2_floor:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.floor(e)) for e in a]
+                    b = [pywasm.arith.f64.floor(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_min_s:
@@ -3473,7 +3473,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_trunc:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.trunc(e)) for e in a]
+                    b = [pywasm.arith.f64.trunc(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_avgr_u:
@@ -3614,7 +3614,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_nearest:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(round(e)) for e in a]
+                    b = [pywasm.arith.f64.nearest(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i16x8_mul:
-- 
2.43.0


From e304caa3c831c5ec89c8b99b656f6d00a348af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 03/54] fix: float min and max ignored the sign of zero and
 kept signaling nans

---
 pywasm/arith.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index 55d7c57..9633ebf 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -214,20 +214,18 @@ class F64:
         return math.copysign(round(a), a)
 
     def min(self, a: float, b: float) -> float:
-        c = min(a, b)
-        if math.isnan(a):
-            c = a
-        if math.isnan(b):
-            c = b
-        return c
+        if math.isnan(a) or math.isnan(b):
+            return a + b
+        if a == 0 and b == 0:
+            return a if math.copysign(1, a) < 0 else b
+        return min(a, b)
 
     def max(self, a: float, b: float) -> float:
-        c = max(a, b)
-        if math.isnan(a):
-            c = a
-        if math.isnan(b):
-            c = b
-        return c
+        if math.isnan(a) or math.isnan(b):
+            return a + b
+        if a == 0 and b == 0:
+            return a if math.copysign(1, a) > 0 else b
+        return max(a, b)
 
 
 i8 = I(1)
-- 
2.43.0


From ff816d035076c80b45c3c1e686734f138e2d7905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 04/54] fix: f32 sign and pseudo-min/max instructions altered
 nan payloads

---
 pywasm/core.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 7bb6be8..dd73bb6 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2428,9 +2428,10 @@ class Machine:
                     d = ValInst.from_f32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32_copysign:
-                    b = self.stack.value.pop().into_f32()
-                    a = self.stack.value.pop().into_f32()
-                    c = ValInst.from_f32(math.copysign(a, b))
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    c = ValInst(ValType.f32(), a.data.copy())
+                    c.data[3] = (a.data[3] & 0x7f) | (b.data[3] & 0x80)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_abs:
                     a = self.stack.value.pop()
@@ -3936,14 +3937,14 @@ class Machine:
                     d = ValInst.from_v128_u64(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_abs:
-                    a = self.stack.value.pop().into_v128_f32()
-                    b = [abs(e) for e in a]
-                    c = ValInst.from_v128_f32(b)
+                    a = self.stack.value.pop().into_v128_u32()
+                    b = [e & 0x7fffffff for e in a]
+                    c = ValInst.from_v128_u32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_neg:
-                    a = self.stack.value.pop().into_v128_f32()
-                    b = [-e for e in a]
-                    c = ValInst.from_v128_f32(b)
+                    a = self.stack.value.pop().into_v128_u32()
+                    b = [e ^ 0x80000000 for e in a]
+                    c = ValInst.from_v128_u32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_sqrt:
                     a = self.stack.value.pop().into_v128_f32()
@@ -3987,16 +3988,20 @@ class Machine:
                     d = ValInst.from_v128_f32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_pmin:
-                    b = self.stack.value.pop().into_v128_f32()
-                    a = self.stack.value.pop().into_v128_f32()
-                    c = [min(a[i], b[i]) for i in range(4)]
-                    d = ValInst.from_v128_f32(c)
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    x = a.into_v128_f32()
+                    y = b.into_v128_f32()
+                    c = [(b if y[i] < x[i] else a).into_v128_u32()[i] for i in range(4)]
+                    d = ValInst.from_v128_u32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_pmax:
-                    b = self.stack.value.pop().into_v128_f32()
-                    a = self.stack.value.pop().into_v128_f32()
-                    c = [max(a[i], b[i]) for i in range(4)]
-                    d = ValInst.from_v128_f32(c)
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    x = a.into_v128_f32()
+                    y = b.into_v128_f32()
+                    c = [(b if y[i] > x[i] else a).into_v128_u32()[i] for i in range(4)]
+                    d = ValInst.from_v128_u32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_abs:
                     a = self.stack.value.pop().into_v128_f64()
-- 
2.43.0


From b4d6b5e34bde8b8271d02c05bed63b301f03e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 05/54] fix: 64-bit integer to f32 conversion rounded twice

---
 pywasm/arith.py | 9 +++++++++
 pywasm/core.py  | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index 9633ebf..c76117b 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -158,6 +158,15 @@ class F32:
     def fit(self, n: float) -> float:
         return ctypes.c_float(n).value
 
+    def from_int(self, n: int) -> float:
+        # Discarded bits are folded into a sticky bit, so that rounding to double first does not change the result.
+        a = abs(n)
+        k = max(0, a.bit_length() - 32)
+        m = a >> k
+        if m << k != a:
+            m = m | 1
+        return self.fit(math.copysign(math.ldexp(m, k), n))
+
     def div(self, a: float, b: float) -> float:
         return self.fit(f64.div(a, b))
 
diff --git a/pywasm/core.py b/pywasm/core.py
index dd73bb6..fa045af 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2576,11 +2576,11 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_convert_i64_s:
                     a = self.stack.value.pop().into_i64()
-                    b = ValInst.from_f32(float(a))
+                    b = ValInst.from_f32(pywasm.arith.f32.from_int(a))
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_convert_i64_u:
                     a = self.stack.value.pop().into_u64()
-                    b = ValInst.from_f32(float(a))
+                    b = ValInst.from_f32(pywasm.arith.f32.from_int(a))
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_demote_f64:
                     a = self.stack.value.pop().into_f64()
-- 
2.43.0


From 9dbaee058a66e936048f7f586c1cf9b222a9829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 06/54] fix: a branch to a called function's outermost label
 drops its frame

---
 pywasm/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index fa045af..efacda5 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1762,9 +1762,10 @@ class Machine:
                     len(self.stack.label),
                     len(self.stack.value),
                 ))
+                # A branch to the outermost label leaves the function, so it must drop the function's own frame.
                 self.stack.label.append(Label(
                     nret,
-                    len(self.stack.frame),
+                    len(self.stack.frame) - 1,
                     len(self.stack.value),
                     3,
                     func.code.expr.data,
-- 
2.43.0


From 39747983992d7a0b7a8e7f6abd3be95b6cbbe8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 07/54] fix: data.drop in one instance no longer empties the
 parsed module's segment

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index efacda5..2e3aa27 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1585,7 +1585,7 @@ class Machine:
             addr = self.store.allocate_elem(e.type, elemin[i])
             inst.elem.append(addr)
         for i, e in enumerate(module.data):
-            addr = self.store.allocate_data(e.init)
+            addr = self.store.allocate_data(e.init.copy())
             inst.data.append(addr)
         for _, e in enumerate(module.exps):
             expi = ExportInst(e.name, Extern(e.kind, 0))
-- 
2.43.0


From 4198d5485301759190c40f8ac2149d2f7849fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 08/54] fix: decode every section, not only the first 32

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 2e3aa27..fab2ad9 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1316,7 +1316,7 @@ class ModuleDesc:
         imps: typing.List[Import] = []
         exps: typing.List[ExportDesc] = []
 
-        for _ in range(32):
+        while True:
             section_id_byte = r.read(1)
             if not section_id_byte:
                 break
-- 
2.43.0


From 2376dea0749a8ddbdf3f4ba76b2bb71141838c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 09/54] fix: a declared maximum of zero is a maximum, not the
 absence of one

---
 pywasm/core.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index fab2ad9..42e3dcf 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -817,24 +817,28 @@ class FuncDesc:
 class Limits:
     # Limits are encoded with a preceding flag indicating whether a maximum is present.
 
-    def __init__(self, n: int, m: int) -> typing.Self:
+    def __init__(self, n: int, m: int, c: typing.Optional[bool] = None) -> typing.Self:
+        # The c tells whether a maximum is present. By default, a zero m means that there is no maximum.
         self.n = n
         self.m = m
+        self.c = m != 0 if c is None else c
 
     def __repr__(self) -> str:
-        m = 'inf' if self.m == 0 else repr(self.m)
+        m = 'inf' if not self.c else repr(self.m)
         return f'[{self.n}, {m}]'
 
     def suit(self, value: typing.Self) -> bool:
         c1 = self.n >= value.n
-        c2 = value.m == 0
-        c3 = self.m != 0 and value.m != 0 and self.m <= value.m
+        c2 = not value.c
+        c3 = self.c and value.c and self.m <= value.m
         return c1 and (c2 or c3)
 
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
         flag = ord(r.read(1))
-        return cls(pywasm.leb128.u.decode_reader(r)[0],  pywasm.leb128.u.decode_reader(r)[0] if flag else 0x00)
+        n = pywasm.leb128.u.decode_reader(r)[0]
+        m = pywasm.leb128.u.decode_reader(r)[0] if flag else 0x00
+        return cls(n, m, flag != 0x00)
 
 
 class MemType:
@@ -894,7 +898,7 @@ class MemInst:
         return self.data[addr:addr+size].copy()
 
     def grow(self, n: int) -> None:
-        if self.type.limits.m:
+        if self.type.limits.c:
             assert self.size + n <= self.type.limits.m
         assert self.size + n <= 65536
         self.data.extend(bytearray(n * 64 * 1024))
@@ -923,7 +927,7 @@ class MemInst:
         self.data[addr:addr+len(data)] = data.copy()
 
     def suit(self, l: Limits) -> bool:
-        return Limits(self.size, self.type.limits.m).suit(l)
+        return Limits(self.size, self.type.limits.m, self.type.limits.c).suit(l)
 
 
 class TableType:
@@ -962,14 +966,14 @@ class TableInst:
         self.grow(type.limits.n, ValInst.zero(self.type.type))
 
     def grow(self, n: int, v: ValInst) -> None:
-        if self.type.limits.m:
+        if self.type.limits.c:
             assert self.size + n <= self.type.limits.m
         assert v.type == self.type.type
         self.elem.extend([v for _ in range(n)])
         self.size += n
 
     def suit(self, l: Limits) -> bool:
-        return Limits(self.size, self.type.limits.m).suit(l)
+        return Limits(self.size, self.type.limits.m, self.type.limits.c).suit(l)
 
 
 class GlobalType:
@@ -1993,7 +1997,7 @@ class Machine:
                     rets = -1
                     # Limit memory size to 64m.
                     cnda = size + incr <= 1024
-                    cndb = mems.type.limits.m == 0 or size + incr <= mems.type.limits.m
+                    cndb = not mems.type.limits.c or size + incr <= mems.type.limits.m
                     if cnda and cndb:
                         rets = size
                         mems.grow(incr)
@@ -2776,7 +2780,7 @@ class Machine:
                     init = self.stack.value.pop()
                     rets = -1
                     cnda = size + incr <= 1024
-                    cndb = tabl.type.limits.m == 0 or size + incr <= tabl.type.limits.m
+                    cndb = not tabl.type.limits.c or size + incr <= tabl.type.limits.m
                     if cnda and cndb:
                         rets = size
                         tabl.grow(incr, init)
-- 
2.43.0


From 72258cc2cd8d2070fbb5fb76de3b344767d74954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 10/54] fix: null references cross the embedding API as None

---
 pywasm/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 42e3dcf..777d9c8 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -218,9 +218,9 @@ class ValInst:
             case 0x7b:
                 return cls.from_v128(n)
             case 0x70:
-                return cls.from_ref(type, n)
+                return cls.from_ref(type, n) if n is not None else cls.zero(type)
             case 0x6f:
-                return cls.from_ref(type, n)
+                return cls.from_ref(type, n) if n is not None else cls.zero(type)
             case _:
                 assert 0
 
@@ -292,9 +292,9 @@ class ValInst:
             case 0x7b:
                 return self.into_v128()
             case 0x70:
-                return self.into_ref()
+                return self.into_ref() if self.data[4] != 0x00 else None
             case 0x6f:
-                return self.into_ref()
+                return self.into_ref() if self.data[4] != 0x00 else None
             case _:
                 assert 0
 
-- 
2.43.0


From f326215a6f6639e17ed1f3ed993277f6582dde99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 11/54] fix: bounds-check the memory accessors offered to the
 embedder

---
 pywasm/core.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 777d9c8..24908e9 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -877,25 +877,26 @@ class MemInst:
         self.grow(type.limits.n)
 
     def get_i32(self, addr: int) -> int:
-        return struct.unpack('<i', self.data[addr:addr+4])[0]
+        return struct.unpack('<i', self.get(addr, 4))[0]
 
     def get_i64(self, addr: int) -> int:
-        return struct.unpack('<q', self.data[addr:addr+8])[0]
+        return struct.unpack('<q', self.get(addr, 8))[0]
 
     def get_u8(self, addr: int) -> int:
-        return self.data[addr]
+        return self.get(addr, 1)[0]
 
     def get_u16(self, addr: int) -> int:
-        return struct.unpack('<H', self.data[addr:addr+2])[0]
+        return struct.unpack('<H', self.get(addr, 2))[0]
 
     def get_u32(self, addr: int) -> int:
-        return struct.unpack('<I', self.data[addr:addr+4])[0]
+        return struct.unpack('<I', self.get(addr, 4))[0]
 
     def get_u64(self, addr: int) -> int:
-        return struct.unpack('<Q', self.data[addr:addr+8])[0]
+        return struct.unpack('<Q', self.get(addr, 8))[0]
 
     def get(self, addr: int, size: int) -> bytearray:
-        return self.data[addr:addr+size].copy()
+        assert 0 <= addr and 0 <= size and addr + size <= len(self.data)
+        return self.data[addr:addr+size]
 
     def grow(self, n: int) -> None:
         if self.type.limits.c:
@@ -905,26 +906,27 @@ class MemInst:
         self.size += n
 
     def put_i32(self, addr: int, data: int) -> None:
-        self.data[addr:addr+4] = struct.pack('<i', data)
+        self.put(addr, bytearray(struct.pack('<i', data)))
 
     def put_i64(self, addr: int, data: int) -> None:
-        self.data[addr:addr+8] = struct.pack('<q', data)
+        self.put(addr, bytearray(struct.pack('<q', data)))
 
     def put_u8(self, addr: int, data: int) -> None:
-        self.data[addr] = data
+        self.put(addr, bytearray([data]))
 
     def put_u16(self, addr: int, data: int) -> None:
-        self.data[addr:addr+2] = struct.pack('<H', data)
+        self.put(addr, bytearray(struct.pack('<H', data)))
 
     def put_u32(self, addr: int, data: int) -> None:
-        self.data[addr:addr+4] = struct.pack('<I', data)
+        self.put(addr, bytearray(struct.pack('<I', data)))
 
     def put_u64(self, addr: int, data: int) -> None:
-        self.data[addr:addr+8] = struct.pack('<Q', data)
+        self.put(addr, bytearray(struct.pack('<Q', data)))
 
     def put(self, addr: int, data: bytearray) -> None:
         assert isinstance(data, bytearray)
-        self.data[addr:addr+len(data)] = data.copy()
+        assert 0 <= addr and addr + len(data) <= len(self.data)
+        self.data[addr:addr+len(data)] = data
 
     def suit(self, l: Limits) -> bool:
         return Limits(self.size, self.type.limits.m, self.type.limits.c).suit(l)
-- 
2.43.0


From 4aa32b809233b28cbc2c8368968549dc7b23e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 12/54] fix: a trap leaves the machine stack clean and host
 functions may re-enter the runtime

---
 pywasm/core.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index 24908e9..893cbbb 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1608,6 +1608,15 @@ class Machine:
         return inst
 
     def instance(self, module: ModuleDesc, extern: typing.List[Extern]) -> ModuleInst:
+        # Run on a stack of its own, so that a trap leaves nothing behind and a suspended computation is not disturbed.
+        stack = self.stack
+        self.stack = Stack()
+        try:
+            return self.instance_fresh(module, extern)
+        finally:
+            self.stack = stack
+
+    def instance_fresh(self, module: ModuleDesc, extern: typing.List[Extern]) -> ModuleInst:
         assert len(module.imps) == len(extern)
         for a, b in zip(module.imps, extern):
             assert a.kind == b.kind
@@ -1705,6 +1714,15 @@ class Machine:
         return newmod
 
     def invocate(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
+        # Run on a stack of its own, so that a trap leaves nothing behind and a suspended computation is not disturbed.
+        stack = self.stack
+        self.stack = Stack()
+        try:
+            return self.invocate_fresh(addr, args)
+        finally:
+            self.stack = stack
+
+    def invocate_fresh(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
         func = self.store.func[addr]
         assert func.kind == 0x00
         for a, b in zip(func.type.args, args):
-- 
2.43.0


From 48d90c09bd14c64c6e4a23ff0a168010ffa7c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 13/54] fix: an exported host function can be invoked

---
 pywasm/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 893cbbb..841dda6 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1724,11 +1724,14 @@ class Machine:
 
     def invocate_fresh(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
         func = self.store.func[addr]
-        assert func.kind == 0x00
         for a, b in zip(func.type.args, args):
             assert a == b.type
         self.stack.frame.append(Frame(ModuleInst(), LocalsInst([]), 0, 0, 0))
         pywasm.log.debugln('invocate', addr, args)
+        if func.kind == 0x01:
+            self.stack.value.extend(args)
+            self.evaluate_call(addr)
+            return self.stack.value
         locals = LocalsInst(args)
         for e in func.code.locals:
             locals.data.extend([ValInst.zero(e.type) for _ in range(e.n)])
-- 
2.43.0


From 96883342052636bcfb01cd2a8b3333f53512281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 14/54] fix: invoking an export that is not a function is
 refused

---
 pywasm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 841dda6..6815b4a 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -4202,7 +4202,9 @@ class Runtime:
     ) -> typing.List[int | float | bytearray]:
         # Once a module has been instantiated, any exported function can be invoked externally via its function address
         # in the store and an appropriate list of argument values.
-        addr = [e for e in module.exps if e.name == func][0].data.data
+        inst = [e for e in module.exps if e.name == func][0].data
+        assert inst.kind == 0x00
+        addr = inst.data
         func = self.machine.store.func[addr]
         assert len(func.type.args) == len(args)
         args = [ValInst.from_all(a, b) for a, b in zip(func.type.args, args)]
-- 
2.43.0


From 9ba10b427c7c3157a125c92f4597dc3c97a7274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 15/54] fix: decoding a leb128 buffer stops at the end of the
 encoding

---
 pywasm/leb128.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pywasm/leb128.py b/pywasm/leb128.py
index 1476b58..8f7b7f7 100644
--- a/pywasm/leb128.py
+++ b/pywasm/leb128.py
@@ -21,7 +21,9 @@ class _U:
         r = 0
         for i, e in enumerate(b):
             r = r + ((e & 0x7f) << (i * 7))
-        return r
+            if e & 0x80 == 0:
+                return r
+        assert 0, 'unterminated leb128'
 
     @staticmethod
     def decode_reader(r: typing.BinaryIO) -> typing.Tuple[int, int]:
@@ -55,9 +57,11 @@ class _I:
         r = 0
         for i, e in enumerate(b):
             r = r + ((e & 0x7f) << (i * 7))
-        if e & 0x40 != 0:
-            r |= - (1 << (i * 7) + 7)
-        return r
+            if e & 0x80 == 0:
+                if e & 0x40 != 0:
+                    r |= - (1 << (i * 7) + 7)
+                return r
+        assert 0, 'unterminated leb128'
 
     @staticmethod
     def decode_reader(r: typing.BinaryIO) -> typing.Tuple[int, int]:
-- 
2.43.0


From ae81a0d9ed47987926aa8ed369828bb0c2d6e7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 16/54] fix: an item that is cut short by the end of its
 section is refused

---
 pywasm/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 6815b4a..d3bd4f9 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -9,6 +9,15 @@ import struct
 import typing
 
 
+class Reader(io.BytesIO):
+    # A reader over a part of a module. Reading past the end of the part is an error.
+
+    def read(self, n: int = -1) -> bytes:
+        data = super().read(n)
+        assert n < 0 or len(data) == n
+        return data
+
+
 class ValType:
     # Value types are encoded by a single byte.
 
@@ -1330,7 +1339,7 @@ class ModuleDesc:
             n = pywasm.leb128.u.decode_reader(r)[0]
             section_data = bytearray(r.read(n))
             assert len(section_data) == n
-            section_reader = io.BytesIO(section_data)
+            section_reader = Reader(section_data)
 
             match section_id:
                 case 0x00:
@@ -1383,7 +1392,7 @@ class ModuleDesc:
                 case 0x0a:
                     for i in range(pywasm.leb128.u.decode_reader(section_reader)[0]):
                         size = pywasm.leb128.u.decode_reader(section_reader)[0]
-                        desc = FuncDesc.from_reader_code(io.BytesIO(section_reader.read(size)))
+                        desc = FuncDesc.from_reader_code(Reader(section_reader.read(size)))
                         func[i].locals = desc.locals
                         func[i].expr = desc.expr
                         pywasm.log.debugln('section code', desc)
-- 
2.43.0


From e36dbd58efe69243692c2e9f1f3418d17059675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 17/54] fix: bytes left over in a section or function body are
 refused

---
 pywasm/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index d3bd4f9..5fdc5c0 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1392,7 +1392,9 @@ class ModuleDesc:
                 case 0x0a:
                     for i in range(pywasm.leb128.u.decode_reader(section_reader)[0]):
                         size = pywasm.leb128.u.decode_reader(section_reader)[0]
-                        desc = FuncDesc.from_reader_code(Reader(section_reader.read(size)))
+                        code_reader = Reader(section_reader.read(size))
+                        desc = FuncDesc.from_reader_code(code_reader)
+                        assert not code_reader.read()
                         func[i].locals = desc.locals
                         func[i].expr = desc.expr
                         pywasm.log.debugln('section code', desc)
@@ -1405,6 +1407,7 @@ class ModuleDesc:
                 case 0x0c:
                     n = pywasm.leb128.u.decode_reader(section_reader)[0]
                     pywasm.log.debugln('section data count', n)
+            assert not section_reader.read()
 
         return cls(type, func, tabl, mems, glob, elem, data, star, imps, exps)
 
-- 
2.43.0


From 5da525248e90c83a189262a2b1e1695e3a6e097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 18/54] fix: unknown, repeated and out of order sections are
 refused

---
 pywasm/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index 5fdc5c0..b893681 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1331,11 +1331,16 @@ class ModuleDesc:
         imps: typing.List[Import] = []
         exps: typing.List[ExportDesc] = []
 
+        # Every section but the custom ones occurs at most once, in this order.
+        order = [0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0c, 0x0a, 0x0b]
         while True:
             section_id_byte = r.read(1)
             if not section_id_byte:
                 break
             section_id = ord(section_id_byte)
+            if section_id != 0x00:
+                assert section_id in order
+                order = order[order.index(section_id) + 1:]
             n = pywasm.leb128.u.decode_reader(r)[0]
             section_data = bytearray(r.read(n))
             assert len(section_data) == n
-- 
2.43.0


From 88823a071ea5193e7eb72157dda19d7c8815fb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 19/54] fix: function, code and data counts that disagree are
 refused

---
 pywasm/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index b893681..f813cf6 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1330,6 +1330,8 @@ class ModuleDesc:
         star: int = -1
         imps: typing.List[Import] = []
         exps: typing.List[ExportDesc] = []
+        code_size: int = 0
+        data_size: int = -1
 
         # Every section but the custom ones occurs at most once, in this order.
         order = [0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0c, 0x0a, 0x0b]
@@ -1395,7 +1397,8 @@ class ModuleDesc:
                         elem.append(desc)
                         pywasm.log.debugln('section elem', desc)
                 case 0x0a:
-                    for i in range(pywasm.leb128.u.decode_reader(section_reader)[0]):
+                    code_size = pywasm.leb128.u.decode_reader(section_reader)[0]
+                    for i in range(code_size):
                         size = pywasm.leb128.u.decode_reader(section_reader)[0]
                         code_reader = Reader(section_reader.read(size))
                         desc = FuncDesc.from_reader_code(code_reader)
@@ -1410,10 +1413,12 @@ class ModuleDesc:
                         data.append(desc)
                         pywasm.log.debugln('section data', desc)
                 case 0x0c:
-                    n = pywasm.leb128.u.decode_reader(section_reader)[0]
-                    pywasm.log.debugln('section data count', n)
+                    data_size = pywasm.leb128.u.decode_reader(section_reader)[0]
+                    pywasm.log.debugln('section data count', data_size)
             assert not section_reader.read()
 
+        assert len(func) == code_size
+        assert data_size in [-1, len(data)]
         return cls(type, func, tabl, mems, glob, elem, data, star, imps, exps)
 
 
-- 
2.43.0


From 99a195199ac90fa28f19ceadeecb8027fb7ba521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 20/54] fix: an unknown limits flag is refused

---
 pywasm/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index f813cf6..9217c18 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -845,6 +845,7 @@ class Limits:
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
         flag = ord(r.read(1))
+        assert flag in [0x00, 0x01]
         n = pywasm.leb128.u.decode_reader(r)[0]
         m = pywasm.leb128.u.decode_reader(r)[0] if flag else 0x00
         return cls(n, m, flag != 0x00)
-- 
2.43.0


From 04594c6380eb29bc37d06e1fe13eca69056a963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 21/54] fix: a memory index other than zero is refused in
 memory.size and memory.grow

---
 pywasm/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index 9217c18..9a56941 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -531,8 +531,10 @@ class Inst:
                 assert o.args[0] < 3
             case pywasm.opcode.memory_size:
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] == 0x00
             case pywasm.opcode.memory_grow:
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] == 0x00
             case pywasm.opcode.i32_const:
                 o.args.append(pywasm.leb128.i.decode_reader(r)[0])
             case pywasm.opcode.i64_const:
-- 
2.43.0


From 0a76e8d5f6f495b3185e14e5997be9e01748585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 22/54] fix: an unknown block type is refused

---
 pywasm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 9a56941..22b22e9 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -339,7 +339,9 @@ class Bype:
         if n in [0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f]:
             return cls(0x01, n)
         r.seek(-1, 1)
-        return cls(0x02, pywasm.leb128.i.decode_reader(r)[0])
+        n = pywasm.leb128.i.decode_reader(r)[0]
+        assert n >= 0
+        return cls(0x02, n)
 
 
 class Inst:
-- 
2.43.0


From 821120fcb7d28cbe049c88a0f762bd6e44ec0ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 23/54] fix: an else that belongs to no if is refused

---
 pywasm/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index 22b22e9..f88fa88 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -388,6 +388,7 @@ class Inst:
                     i = Inst.from_reader(r)
                     if i.opcode == pywasm.opcode.end:
                         break
+                    assert i.opcode != pywasm.opcode.else_fi
                     o.args[1].append(i)
             case pywasm.opcode.loop:
                 o.args.append(Bype.from_reader(r))
@@ -396,6 +397,7 @@ class Inst:
                     i = Inst.from_reader(r)
                     if i.opcode == pywasm.opcode.end:
                         break
+                    assert i.opcode != pywasm.opcode.else_fi
                     o.args[1].append(i)
             case pywasm.opcode.if_then:
                 o.args.append(Bype.from_reader(r))
@@ -407,6 +409,7 @@ class Inst:
                     if i.opcode == pywasm.opcode.end:
                         break
                     if i.opcode == pywasm.opcode.else_fi:
+                        assert argidx == 1
                         argidx = 2
                         continue
                     o.args[argidx].append(i)
@@ -742,6 +745,7 @@ class Expr:
             i = Inst.from_reader(r)
             if i.opcode == pywasm.opcode.end:
                 break
+            assert i.opcode != pywasm.opcode.else_fi
             s.append(i)
         return cls(s)
 
-- 
2.43.0


From 2408a52bb94d2210bd50679406d598971d03be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 24/54] fix: unknown type codes are refused in ref.null, select
 and element segments

---
 pywasm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index f88fa88..732bf50 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -426,7 +426,7 @@ class Inst:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
             case pywasm.opcode.select_type:
-                o.args.append([pywasm.leb128.u.decode_reader(r)[0] for _ in range(pywasm.leb128.u.decode_reader(r)[0])])
+                o.args.append([ValType.from_reader(r).data for _ in range(pywasm.leb128.u.decode_reader(r)[0])])
             case pywasm.opcode.local_get:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
             case pywasm.opcode.local_set:
@@ -552,6 +552,7 @@ class Inst:
                 o.args.append(struct.unpack('<q', r.read(8))[0])
             case pywasm.opcode.ref_null:
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] in [0x70, 0x6f]
             case pywasm.opcode.ref_func:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
             case pywasm.opcode.memory_init:
@@ -1165,6 +1166,7 @@ class ElemDesc:
     def __init__(self, kind: int, type: ValType, tidx: int, offset: Expr, init: typing.List[Expr]) -> typing.Self:
         assert kind >= 0x00
         assert kind <= 0x07
+        assert type in [ValType.ref_func(), ValType.ref_extern()]
         self.kind = kind
         self.type = type
         self.tidx = tidx
-- 
2.43.0


From ff470d215021c3456e24a56dd60a90dac5481359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 25/54] fix: lane indices are single bytes

---
 pywasm/core.py | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 732bf50..c162073 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -631,90 +631,90 @@ class Inst:
                 o.args.append(bytearray(r.read(16)))
             case pywasm.opcode.i8x16_shuffle:
                 for _ in range(16):
-                    o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                    o.args.append(ord(r.read(1)))
                 for e in o.args:
                     assert e < 32
             case pywasm.opcode.i8x16_extract_lane_s:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 16
             case pywasm.opcode.i8x16_extract_lane_u:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 16
             case pywasm.opcode.i8x16_replace_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 16
             case pywasm.opcode.i16x8_extract_lane_s:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 8
             case pywasm.opcode.i16x8_extract_lane_u:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 8
             case pywasm.opcode.i16x8_replace_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 8
             case pywasm.opcode.i32x4_extract_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 4
             case pywasm.opcode.i32x4_replace_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 4
             case pywasm.opcode.i64x2_extract_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 2
             case pywasm.opcode.i64x2_replace_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 2
             case pywasm.opcode.f32x4_extract_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 4
             case pywasm.opcode.f32x4_replace_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 4
             case pywasm.opcode.f64x2_extract_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 2
             case pywasm.opcode.f64x2_replace_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 2
             case pywasm.opcode.v128_load8_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 16
             case pywasm.opcode.v128_load16_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 8
             case pywasm.opcode.v128_load32_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 4
             case pywasm.opcode.v128_load64_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 2
             case pywasm.opcode.v128_store8_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 16
             case pywasm.opcode.v128_store16_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 8
             case pywasm.opcode.v128_store32_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 4
             case pywasm.opcode.v128_store64_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 2
             case pywasm.opcode.v128_load32_zero:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-- 
2.43.0


From 57514f75736045d71214e6a3b1c9c02c5c048772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 26/54] fix: the alignment of lane and zero loads is checked

---
 pywasm/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index c162073..1dd5a2d 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -680,48 +680,58 @@ class Inst:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] < 1
                 assert o.args[2] < 16
             case pywasm.opcode.v128_load16_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] < 2
                 assert o.args[2] < 8
             case pywasm.opcode.v128_load32_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] < 3
                 assert o.args[2] < 4
             case pywasm.opcode.v128_load64_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] < 4
                 assert o.args[2] < 2
             case pywasm.opcode.v128_store8_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] < 1
                 assert o.args[2] < 16
             case pywasm.opcode.v128_store16_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] < 2
                 assert o.args[2] < 8
             case pywasm.opcode.v128_store32_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] < 3
                 assert o.args[2] < 4
             case pywasm.opcode.v128_store64_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] < 4
                 assert o.args[2] < 2
             case pywasm.opcode.v128_load32_zero:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 3
             case pywasm.opcode.v128_load64_zero:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 4
         return o
 
 
-- 
2.43.0


From cce53f0678bea41f48a235ec7e92af0c678c44a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 27/54] fix: host errors in WASI calls become error codes,
 guest pointers are unsigned

---
 pywasm/wasi.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index d4243e3..70a5443 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1,4 +1,5 @@
 import dataclasses
+import errno
 import fcntl
 import os
 import platform
@@ -554,7 +555,8 @@ class Preview1:
         runtime.imports['wasi_snapshot_preview1'] = {}
         for e in vec:
             funkype = pywasm.core.FuncType(e[1], e[2])
-            runtime.imports['wasi_snapshot_preview1'][e[0]] = runtime.allocate_func_host(funkype, e[3])
+            func = e[3] if e[0] == 'proc_exit' else self.help_call(e[3], e[1])
+            runtime.imports['wasi_snapshot_preview1'][e[0]] = runtime.allocate_func_host(funkype, func)
 
     def clock_res_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the resolution of a clock.
@@ -973,6 +975,27 @@ class Preview1:
     def help_badf(self, fd: int) -> bool:
         return fd < 0 or fd >= len(self.fd) or self.fd[fd].wasm_status != self.FILE_STATUS_OPENED
 
+    def help_call(self, func: typing.Callable, kind: typing.List[pywasm.core.ValType]) -> typing.Callable:
+        # Guest pointers, sizes, descriptors and flags are unsigned, and host errors are reported as error codes.
+        i32 = pywasm.core.ValType.i32()
+
+        def call(m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
+            args = [a & 0xffffffff if k == i32 else a for k, a in zip(kind, args)]
+            try:
+                return func(m, args)
+            except OSError as e:
+                return [self.help_errno(e)]
+            except UnicodeError:
+                return [self.ERRNO_ILSEQ]
+            except (OverflowError, ValueError):
+                return [self.ERRNO_INVAL]
+        return call
+
+    def help_errno(self, e: OSError) -> int:
+        # Error code of a host error.
+        name = errno.errorcode.get(e.errno, 'EIO')
+        return getattr(self, 'ERRNO_' + name[1:], self.ERRNO_IO)
+
     def help_escp(self, root: str, name: str) -> bool:
         return not os.path.normpath(os.path.join(root, name)).startswith(root)
 
-- 
2.43.0


From 20e1024e1a4f0a41e53893a023bb037c9418ca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 28/54] fix: WASI paths are resolved below their directory,
 through links and dot-dot

---
 pywasm/wasi.py | 128 +++++++++++++++++++++++++++++++------------------
 1 file changed, 82 insertions(+), 46 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 70a5443..6b026db 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -996,9 +996,6 @@ class Preview1:
         name = errno.errorcode.get(e.errno, 'EIO')
         return getattr(self, 'ERRNO_' + name[1:], self.ERRNO_IO)
 
-    def help_escp(self, root: str, name: str) -> bool:
-        return not os.path.normpath(os.path.join(root, name)).startswith(root)
-
     def help_wasm_type(self, info: os.stat_result) -> int:
         match info.st_mode:
             case x if stat.S_ISBLK(x):
@@ -1019,6 +1016,62 @@ class Preview1:
     def help_idir(self, fd: int) -> bool:
         return self.fd[fd].wasm_type == self.FILETYPE_DIRECTORY
 
+    def help_path(self, fd: int, name: str, follow: bool) -> str:
+        # Resolve a guest path below the directory fd. Neither ".." nor a symbolic link leads out of that directory, and
+        # the path returned passes through neither of them, so the host follows it nowhere else.
+        if not name:
+            raise FileNotFoundError(errno.ENOENT, name)
+        if '\0' in name:
+            raise OSError(errno.EILSEQ, name)
+        if name.startswith('/'):
+            raise PermissionError(errno.EPERM, name)
+        host_fd = self.fd[fd].host_fd
+        link = 0
+        path = []
+        todo = name.split('/')
+        last = ''
+        tail = ''
+        while todo:
+            elem = todo.pop(0)
+            if not elem:
+                tail = '/'
+                continue
+            last = elem
+            tail = ''
+            if elem == '.':
+                continue
+            if elem == '..':
+                if not path:
+                    raise PermissionError(errno.EPERM, name)
+                path.pop()
+                continue
+            if not todo and not follow:
+                path.append(elem)
+                break
+            full = '/'.join(path + [elem])
+            try:
+                mode = os.stat(full, dir_fd=host_fd, follow_symlinks=False).st_mode
+            except FileNotFoundError:
+                if any(todo):
+                    raise
+                path.append(elem)
+                continue
+            if stat.S_ISLNK(mode):
+                link += 1
+                if link > 40:
+                    raise OSError(errno.ELOOP, name)
+                dest = os.readlink(full, dir_fd=host_fd)
+                if dest.startswith('/'):
+                    raise PermissionError(errno.EPERM, name)
+                todo = dest.split('/') + todo
+                continue
+            if todo and not stat.S_ISDIR(mode):
+                raise NotADirectoryError(errno.ENOTDIR, name)
+            path.append(elem)
+        if last in ['.', '..']:
+            path.append('.')
+        return '/'.join(path) + tail
+
     def help_perm(self, fd: int, perm: int) -> bool:
         return self.fd[fd].wasm_rights_base & perm == 0
 
@@ -1074,9 +1127,7 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
+        name = self.help_path(args[0], mems.get(args[1], args[2]).decode(), False)
         try:
             os.mkdir(name, dir_fd=file.host_fd)
         except FileExistsError:
@@ -1093,10 +1144,9 @@ class Preview1:
         file = self.fd[args[0]]
         flag = args[1]
         name = mems.get(args[2], args[3]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
+        name = self.help_path(args[0], name, flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW != 0)
         try:
-            info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
+            info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=False)
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         mems.put_u64(args[4], 1)
@@ -1123,9 +1173,8 @@ class Preview1:
         file = self.fd[args[0]]
         flag = args[1]
         name = mems.get(args[2], args[3]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
-        info = os.stat(name, dir_fd=file.host_fd)
+        name = self.help_path(args[0], name, flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW != 0)
+        info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=False)
         atim = info.st_atime_ns
         if args[6] & self.FSTFLAGS_ATIM:
             atim = args[4]
@@ -1137,7 +1186,7 @@ class Preview1:
         if args[6] & self.FSTFLAGS_MTIM_NOW:
             mtim = time.time_ns()
         try:
-            os.utime(name, ns=(atim, mtim), dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
+            os.utime(name, ns=(atim, mtim), dir_fd=file.host_fd, follow_symlinks=False)
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         return [self.ERRNO_SUCCESS]
@@ -1155,13 +1204,10 @@ class Preview1:
         dest = self.fd[args[4]]
         stem_name = mems.get(args[2], args[3]).decode()
         dest_name = mems.get(args[5], args[6]).decode()
-        if self.help_escp(stem.wasm_name, stem_name):
-            return [self.ERRNO_PERM]
-        if self.help_escp(dest.wasm_name, dest_name):
-            return [self.ERRNO_PERM]
-        foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
+        stem_name = self.help_path(args[0], stem_name, args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW != 0)
+        dest_name = self.help_path(args[4], dest_name, False)
         try:
-            os.link(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd, follow_symlinks=foll)
+            os.link(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd, follow_symlinks=False)
         except FileExistsError:
             return [self.ERRNO_EXIST]
         except FileNotFoundError:
@@ -1181,13 +1227,11 @@ class Preview1:
         name = mems.get(args[2], args[3]).decode()
         wasm_name = os.path.normpath(os.path.join(file.wasm_name, name))
         host_name = os.path.normpath(os.path.join(file.host_name, name))
-        if '\0' in name:
-            return [self.ERRNO_ILSEQ]
-        if self.help_escp(file.host_name, name):
-            return [self.ERRNO_PERM]
-        flag = 0
-        if args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW == 0:
-            flag |= os.O_NOFOLLOW
+        # An exclusive creation does not follow a symbolic link either.
+        excl = self.OFLAGS_CREAT | self.OFLAGS_EXCL
+        foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW != 0 and args[4] & excl != excl
+        name = self.help_path(args[0], name, foll)
+        flag = os.O_NOFOLLOW
         if args[4] & self.OFLAGS_CREAT:
             flag |= os.O_CREAT
         if args[4] & self.OFLAGS_DIRECTORY:
@@ -1275,9 +1319,7 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
+        name = self.help_path(args[0], mems.get(args[1], args[2]).decode(), False)
         try:
             data = os.readlink(name, dir_fd=file.host_fd)
         except FileNotFoundError:
@@ -1295,9 +1337,7 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
+        name = self.help_path(args[0], mems.get(args[1], args[2]).decode(), False)
         try:
             os.rmdir(name, dir_fd=file.host_fd)
         except NotADirectoryError:
@@ -1321,12 +1361,8 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         stem = self.fd[args[0]]
         dest = self.fd[args[3]]
-        stem_name = mems.get(args[1], args[2]).decode()
-        dest_name = mems.get(args[4], args[5]).decode()
-        if self.help_escp(stem.wasm_name, stem_name):
-            return [self.ERRNO_PERM]
-        if self.help_escp(dest.wasm_name, dest_name):
-            return [self.ERRNO_PERM]
+        stem_name = self.help_path(args[0], mems.get(args[1], args[2]).decode(), False)
+        dest_name = self.help_path(args[3], mems.get(args[4], args[5]).decode(), False)
         try:
             os.rename(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd)
         except FileExistsError:
@@ -1354,11 +1390,13 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[2]]
         stem = mems.get(args[0], args[1]).decode()
-        dest = mems.get(args[3], args[4]).decode()
-        if self.help_escp(file.wasm_name, stem):
-            return [self.ERRNO_PERM]
-        if self.help_escp(file.wasm_name, dest):
-            return [self.ERRNO_PERM]
+        dest = self.help_path(args[2], mems.get(args[3], args[4]).decode(), False)
+        # The target, seen from where the link is, must not lead out of the directory.
+        levl = dest.rstrip('/').count('/')
+        for elem in stem.split('/'):
+            levl += {'': 0, '.': 0, '..': -1}.get(elem, 1)
+            if levl < 0 or stem.startswith('/'):
+                return [self.ERRNO_PERM]
         try:
             os.symlink(stem, dest, dir_fd=file.host_fd)
         except FileExistsError:
@@ -1377,9 +1415,7 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
+        name = self.help_path(args[0], mems.get(args[1], args[2]).decode(), False)
         try:
             os.unlink(name, dir_fd=file.host_fd)
         except IsADirectoryError:
-- 
2.43.0


From 082d83365674e6bf06b14f2a3b6a8bf5c8932dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 29/54] fix: path_open passes on no more than the inheriting
 rights, creating a file needs its right

---
 pywasm/wasi.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 6b026db..cf53032 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1230,6 +1230,11 @@ class Preview1:
         # An exclusive creation does not follow a symbolic link either.
         excl = self.OFLAGS_CREAT | self.OFLAGS_EXCL
         foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW != 0 and args[4] & excl != excl
+        # The new descriptor has no right the directory can not pass on.
+        rights_base = args[5] & file.wasm_rights_root
+        rights_root = args[6] & file.wasm_rights_root
+        if args[4] & self.OFLAGS_CREAT and self.help_perm(args[0], self.RIGHTS_PATH_CREATE_FILE):
+            return [self.ERRNO_NOTCAPABLE]
         name = self.help_path(args[0], name, foll)
         flag = os.O_NOFOLLOW
         if args[4] & self.OFLAGS_CREAT:
@@ -1242,11 +1247,11 @@ class Preview1:
             flag |= os.O_TRUNC
             if file.wasm_rights_base & self.RIGHTS_PATH_FILESTAT_SET_SIZE == 0:
                 return [self.ERRNO_PERM]
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ:
             flag |= os.O_RDONLY
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_WRITE:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_WRITE:
             flag |= os.O_WRONLY
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE:
             flag |= os.O_RDWR
         if args[7] & self.FDFLAGS_APPEND:
             flag |= os.O_APPEND
@@ -1267,8 +1272,6 @@ class Preview1:
             if platform.system().lower() == 'linux' and e.errno == 40:
                 return [self.ERRNO_LOOP]
             raise e
-        rights_base = args[5]
-        rights_root = args[6]
         # Drectory does not have the seek right.
         if os.path.isdir(host_fd):
             void = self.RIGHTS_FD_SEEK
-- 
2.43.0


From 9f0e824d698601e415e897d99a4cf309ed9152c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 30/54] fix: path_open refuses undefined flags and the creation
 of directories

---
 pywasm/wasi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index cf53032..c2c45ee 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1229,6 +1229,8 @@ class Preview1:
         host_name = os.path.normpath(os.path.join(file.host_name, name))
         # An exclusive creation does not follow a symbolic link either.
         excl = self.OFLAGS_CREAT | self.OFLAGS_EXCL
+        if args[4] > 15 or args[7] > 31 or args[4] & self.OFLAGS_CREAT and args[4] & self.OFLAGS_DIRECTORY:
+            return [self.ERRNO_INVAL]
         foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW != 0 and args[4] & excl != excl
         # The new descriptor has no right the directory can not pass on.
         rights_base = args[5] & file.wasm_rights_root
-- 
2.43.0


From f119c14c0eaf61aa9a4276a7f15287a6ec703fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 31/54] fix: fd_fdstat_set_flags accepts NONBLOCK and refuses
 other changes

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index c2c45ee..1d960f8 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -656,8 +656,8 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_FD_FDSTAT_SET_FLAGS):
             return [self.ERRNO_NOTCAPABLE]
         file = self.fd[args[0]]
-        fyes = self.FDFLAGS_APPEND | self.FDFLAGS_APPEND
-        if file.wasm_flag ^ args[1] | fyes != fyes:
+        fyes = self.FDFLAGS_APPEND | self.FDFLAGS_NONBLOCK
+        if (file.wasm_flag ^ args[1]) | fyes != fyes:
             # Only support changing the NONBLOCK or APPEND flags.
             return [self.ERRNO_INVAL]
         file.host_flag &= ~os.O_APPEND
-- 
2.43.0


From 8d42eb1a4960b11d882b23e48b61a129859a13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 32/54] fix: fd_filestat_get looks at the open file, not at its
 name

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 1d960f8..bbd0073 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -695,7 +695,7 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        info = os.stat(file.host_name)
+        info = os.fstat(file.host_fd)
         mems.put_u64(args[1], 1)
         mems.put_u64(args[1] + 8, info.st_ino)
         mems.put_u8(args[1] + 16, file.wasm_type)
-- 
2.43.0


From 16fc6aaec8b7c15739c668ad3ce8dfb6c1d51890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 33/54] fix: fd_filestat_set_times sets the modification time
 to now on request

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index bbd0073..f09184d 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -739,7 +739,7 @@ class Preview1:
         if args[3] & self.FSTFLAGS_MTIM:
             mtim = args[2]
         if args[3] & self.FSTFLAGS_MTIM_NOW:
-            mtim = args[2]
+            mtim = time.time_ns()
         os.utime(file.host_fd, ns=(atim, mtim))
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From 9264b974a22ebfbc305b7f1d8550c7e08e607633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 34/54] fix: reads fill every buffer with a single host read,
 empty buffers do not end them

---
 pywasm/wasi.py | 61 +++++++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 33 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index f09184d..561afa1 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -753,21 +753,10 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        iovs_ptr = args[1]
-        iovs_len = args[2]
-        offs = args[3]
-        for _ in range(iovs_len):
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            data = os.pread(file.host_fd, elem_len, offs)
-            if len(data) == 0:
-                break
-            mems.put(elem_ptr, bytearray(data))
-            iovs_ptr += 8
-            offs += len(data)
-            if len(data) < elem_len:
-                break
-        mems.put_u32(args[4], offs - args[3])
+        size = self.help_iovs(mems, args[1], args[2])
+        data = os.pread(file.host_fd, size, args[3])
+        self.help_iovs_put(mems, args[1], args[2], data)
+        mems.put_u32(args[4], len(data))
         return [self.ERRNO_SUCCESS]
 
     def fd_prestat_dir_name(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -826,24 +815,13 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        iovs_ptr = args[1]
-        iovs_len = args[2]
-        size = 0
-        for _ in range(iovs_len):
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            data = [
-                lambda: os.read(file.host_fd, elem_len),
-                lambda: file.pipe.read(elem_len),
-            ][self.help_pipe(args[0])]()
-            if len(data) == 0:
-                break
-            mems.put(elem_ptr, bytearray(data))
-            iovs_ptr += 8
-            size += len(data)
-            if len(data) < elem_len:
-                break
-        mems.put_u32(args[3], size)
+        size = self.help_iovs(mems, args[1], args[2])
+        data = [
+            lambda: os.read(file.host_fd, size),
+            lambda: file.pipe.read(size),
+        ][self.help_pipe(args[0])]()
+        self.help_iovs_put(mems, args[1], args[2], data)
+        mems.put_u32(args[3], len(data))
         return [self.ERRNO_SUCCESS]
 
     def fd_readdir(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1016,6 +994,23 @@ class Preview1:
     def help_idir(self, fd: int) -> bool:
         return self.fd[fd].wasm_type == self.FILETYPE_DIRECTORY
 
+    def help_iovs(self, mems: pywasm.core.MemInst, iovs_ptr: int, iovs_len: int) -> int:
+        # Total size of the buffers, all of which lie in memory.
+        size = 0
+        for i in range(iovs_len):
+            elem_ptr = mems.get_u32(iovs_ptr + i * 8)
+            elem_len = mems.get_u32(iovs_ptr + i * 8 + 4)
+            assert elem_ptr + elem_len <= len(mems.data)
+            size += elem_len
+        return size
+
+    def help_iovs_put(self, mems: pywasm.core.MemInst, iovs_ptr: int, iovs_len: int, data: bytes) -> None:
+        # Distribute data over the buffers in order.
+        iovs = [[mems.get_u32(iovs_ptr + i * 8), mems.get_u32(iovs_ptr + i * 8 + 4)] for i in range(iovs_len)]
+        for elem_ptr, elem_len in iovs:
+            mems.put(elem_ptr, bytearray(data[:elem_len]))
+            data = data[elem_len:]
+
     def help_path(self, fd: int, name: str, follow: bool) -> str:
         # Resolve a guest path below the directory fd. Neither ".." nor a symbolic link leads out of that directory, and
         # the path returned passes through neither of them, so the host follows it nowhere else.
-- 
2.43.0


From 8fb4d008f2430a8999c580ca1e53c9fa7f6cfaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 35/54] fix: fd_prestat calls know the preopened directories,
 wherever they were moved

---
 pywasm/wasi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 561afa1..7efe723 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -408,6 +408,7 @@ class Preview1:
         wasm_rights_root: int
         wasm_status: int
         wasm_type: int
+        wasm_prestat: bool = False
 
     def __init__(self, args: typing.List[str], dirs: typing.Dict[str, str], envs: typing.Dict[str, str]):
         self.args = args
@@ -473,6 +474,7 @@ class Preview1:
                 wasm_rights_root=0b00001111111111111111111111111111,
                 wasm_status=self.FILE_STATUS_OPENED,
                 wasm_type=self.FILETYPE_DIRECTORY,
+                wasm_prestat=True,
             ))
         # By default, when wasi applications call proc_exit(), wasi.main() will return with the exit code specified
         # rather than terminating the process. Setting this option to 0 will cause the python process to exit with the
@@ -761,7 +763,7 @@ class Preview1:
 
     def fd_prestat_dir_name(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or not self.fd[args[0]].wasm_prestat:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
@@ -773,7 +775,7 @@ class Preview1:
 
     def fd_prestat_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or not self.fd[args[0]].wasm_prestat:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
@@ -873,6 +875,7 @@ class Preview1:
         dest.wasm_rights_root = stem.wasm_rights_root
         dest.wasm_status = stem.wasm_status
         dest.wasm_type = stem.wasm_type
+        dest.wasm_prestat = stem.wasm_prestat
         stem.host_status = self.FILE_STATUS_CLOSED
         stem.wasm_status = self.FILE_STATUS_CLOSED
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 6c81e8522f72cfdb3499b224e28d80efd5b74798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 36/54] fix: fd_renumber onto itself keeps the descriptor open,
 pipes move with theirs

---
 pywasm/wasi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 7efe723..84df957 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -859,6 +859,8 @@ class Preview1:
     def fd_renumber(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         if self.help_badf(args[0]) or self.help_badf(args[1]):
             return [self.ERRNO_BADF]
+        if args[0] == args[1]:
+            return [self.ERRNO_SUCCESS]
         stem = self.fd[args[0]]
         dest = self.fd[args[1]]
         if dest.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
@@ -1074,7 +1076,7 @@ class Preview1:
         return self.fd[fd].wasm_rights_base & perm == 0
 
     def help_pipe(self, fd: int) -> bool:
-        return fd < 3 and self.fd[fd].pipe is not None
+        return self.fd[fd].pipe is not None
 
     def help_sock(self, fd: int) -> bool:
         return self.fd[fd].wasm_type not in [self.FILETYPE_SOCKET_DGRAM, self.FILETYPE_SOCKET_STREAM]
-- 
2.43.0


From e6f891bbbbafed7fd0042085a0b7210cc7fe65ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 37/54] fix: fd_readdir reports links, byte lengths and the
 used size, and fills the buffer

---
 pywasm/wasi.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 84df957..d9e4a7e 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -8,6 +8,7 @@ import random
 import select
 import socket
 import stat
+import struct
 import sys
 import time
 import typing
@@ -834,26 +835,21 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        dirent = args[1]
+        cookie = args[3] & 0xffffffffffffffff
         buflen = args[2]
-        bufend = dirent + buflen
-        cookie = args[3]
         result = ['.', '..', *sorted(os.listdir(file.host_fd))]
+        dirent = bytearray()
         for name in result[cookie:]:
-            if dirent + 24 > bufend:
+            if len(dirent) >= buflen:
                 break
-            info = os.stat(os.path.normpath(os.path.join(file.host_name, name)))
-            mems.put_u64(dirent, cookie + 1)
-            mems.put_u64(dirent + 8, info.st_ino)
-            mems.put_u32(dirent + 16, len(name))
-            mems.put_u8(dirent + 20, self.help_wasm_type(info))
-            dirent += 24
-            if dirent + len(name) > bufend:
-                break
-            mems.put(dirent, bytearray(name.encode()))
-            dirent += len(name)
+            info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=False)
+            data = os.fsencode(name)
             cookie += 1
-        mems.put_u32(args[4], dirent - args[1] if cookie >= len(result) else buflen)
+            dirent.extend(struct.pack('<QQIBxxx', cookie, info.st_ino, len(data), self.help_wasm_type(info)) + data)
+        # The last entry is cut off where the buffer ends.
+        dirent = dirent[:buflen]
+        mems.put(args[1], dirent)
+        mems.put_u32(args[4], len(dirent))
         return [self.ERRNO_SUCCESS]
 
     def fd_renumber(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 0c04581b8cb8296888eca7f60e867d9db4943bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 38/54] fix: fd_seek moves the offset once and refuses an
 undefined whence

---
 pywasm/wasi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index d9e4a7e..e776c70 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -891,10 +891,9 @@ class Preview1:
         assert self.WHENCE_END == os.SEEK_END
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        ocur = os.lseek(file.host_fd, 0, args[2])
-        # Seek before byte 0 is an error though.
-        if ocur + args[1] < 0:
+        if args[2] not in [self.WHENCE_SET, self.WHENCE_CUR, self.WHENCE_END]:
             return [self.ERRNO_INVAL]
+        # Seek before byte 0 is an error.
         offs = os.lseek(file.host_fd, args[1], args[2])
         mems.put_u64(args[3], offs)
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From b5110da21cb4b640c5e9e0ad86412bede241ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 39/54] fix: fd_allocate refuses negative ranges and needs no
 memory for the space

---
 pywasm/wasi.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index e776c70..6b80f97 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -612,13 +612,11 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_FD_ALLOCATE):
             return [self.ERRNO_NOTCAPABLE]
         file = self.fd[args[0]]
-        size = args[1] + args[2] - os.stat(file.host_fd).st_size
-        if size <= 0:
-            return [self.ERRNO_SUCCESS]
-        offs = os.lseek(file.host_fd, 0, os.SEEK_CUR)
-        os.lseek(file.host_fd, 0, os.SEEK_END)
-        os.write(file.host_fd, bytearray(size))
-        os.lseek(file.host_fd, offs, os.SEEK_SET)
+        if args[1] < 0 or args[2] < 0:
+            return [self.ERRNO_INVAL]
+        size = args[1] + args[2]
+        if size > os.stat(file.host_fd).st_size:
+            os.ftruncate(file.host_fd, size)
         return [self.ERRNO_SUCCESS]
 
     def fd_close(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From bd2e72ec1f783d307910435992d8fe4ae86df74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 40/54] fix: argument and environment sizes count bytes

---
 pywasm/wasi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 6b80f97..1d46647 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -492,7 +492,7 @@ class Preview1:
             mems.put_u32(argv, argv_buf)
             argv += 4
             mems.put(argv_buf, bytearray(e.encode()))
-            argv_buf += len(e)
+            argv_buf += len(e.encode())
             mems.put_u8(argv_buf, 0)
             argv_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -501,7 +501,7 @@ class Preview1:
         # Return command-line argument data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.args))
-        mems.put_u32(args[1], sum([len(e) + 1 for e in self.args]))
+        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.args]))
         return [self.ERRNO_SUCCESS]
 
     def bind(self, runtime: pywasm.core.Runtime) -> None:
@@ -583,7 +583,7 @@ class Preview1:
             mems.put_u32(environ, environ_buf)
             environ += 4
             mems.put(environ_buf, bytearray(e.encode()))
-            environ_buf += len(e)
+            environ_buf += len(e.encode())
             mems.put_u8(environ_buf, 0)
             environ_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -592,7 +592,7 @@ class Preview1:
         # Return environment variable data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.envs))
-        mems.put_u32(args[1], sum([len(e) + 1 for e in self.envs]))
+        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.envs]))
         return [self.ERRNO_SUCCESS]
 
     def fd_advise(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 9e3dca4f83173f1c7a69d02a9dd31ec196b745a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 41/54] fix: path_readlink cuts the target at bytes

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 1d46647..b3e3698 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1319,11 +1319,11 @@ class Preview1:
         file = self.fd[args[0]]
         name = self.help_path(args[0], mems.get(args[1], args[2]).decode(), False)
         try:
-            data = os.readlink(name, dir_fd=file.host_fd)
+            data = os.fsencode(os.readlink(name, dir_fd=file.host_fd))
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         size = min(len(data), args[4])
-        mems.put(args[3], bytearray(data[:size].encode()))
+        mems.put(args[3], bytearray(data[:size]))
         mems.put_u32(args[5], size)
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From c6475ccacf624fa74ead1ff25bb346d749a25351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 42/54] fix: queries for undefined clocks are refused

---
 pywasm/wasi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index b3e3698..4f1566a 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -564,6 +564,7 @@ class Preview1:
     def clock_res_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the resolution of a clock.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
+        self.help_time(args[0])
         mems.put_u64(args[1], 1)
         return [self.ERRNO_SUCCESS]
 
@@ -1085,7 +1086,7 @@ class Preview1:
             case self.CLOCKID_THREAD_CPUTIME_ID:
                 return time.thread_time_ns()
             case _:
-                return 0
+                raise ValueError(id)
 
     def main(self, runtime: pywasm.core.Runtime, module: pywasm.core.ModuleInst) -> int:
         # Attempt to begin execution of instance as a wasi command by invoking its _start() export. If instance does
-- 
2.43.0


From 2b02c9701d870453f1b2c034f23ccf2a790e96ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 43/54] fix: random_get checks the buffer before filling it

---
 pywasm/wasi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 4f1566a..be4b042 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1517,6 +1517,7 @@ class Preview1:
     def random_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Write high-quality random data into a buffer.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
+        assert args[0] + args[1] <= len(mems.data)
         mems.put(args[0], bytearray(random.randbytes(args[1])))
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From dbfb218b1c1fa4ee7413b57d4172e42e24e5052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 44/54] fix: poll_oneoff waits until a subscription is due and
 knows absolute timeouts

---
 pywasm/wasi.py | 51 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index be4b042..02ecfc7 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1432,6 +1432,8 @@ class Preview1:
         nsub = args[2]
         nout = args[3]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
+        if nsub == 0:
+            return [self.ERRNO_INVAL]
         csub = []
         rsub = []
         wsub = []
@@ -1442,13 +1444,15 @@ class Preview1:
             eype = mems.get_u8(addr + 8)
             match eype:
                 case self.EVENTTYPE_CLOCK:
-                    ckid = mems.get_u64(addr + 16)
+                    ckid = mems.get_u32(addr + 16)
                     nval = mems.get_u64(addr + 24)
-                    flag = mems.get_u32(addr + 40)
+                    flag = mems.get_u16(addr + 40)
+                    # The time used by the program does not pass while it waits.
+                    if ckid not in [self.CLOCKID_REALTIME, self.CLOCKID_MONOTONIC]:
+                        return [self.ERRNO_INVAL]
                     ctim = self.help_time(ckid)
-                    delt = ctim - nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else nval
                     ends = nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else ctim + nval
-                    csub.append([userdata, ckid, delt, ends])
+                    csub.append([userdata, ckid, ends])
                 case self.EVENTTYPE_FD_READ:
                     file = mems.get_u32(addr + 16)
                     if self.help_badf(file):
@@ -1463,19 +1467,28 @@ class Preview1:
                     if self.help_perm(file, self.RIGHTS_POLL_FD_READWRITE):
                         return [self.ERRNO_NOTCAPABLE]
                     wsub.append([userdata, file])
-        # Calculate minimum timeout.
-        delt = 8
-        if csub:
-            delt = min([e[2] for e in csub]) / 1000000000.0
-        ryes, wyes, _ = select.select(
-            [self.fd[fd].host_fd for _, fd in rsub],
-            [self.fd[fd].host_fd for _, fd in wsub],
-            [],
-            delt,
-        )
+                case _:
+                    return [self.ERRNO_INVAL]
+        # Files backed by a pipe object are always ready.
+        pipe = [fd for _, fd in rsub + wsub if self.help_pipe(fd)]
+        while True:
+            # Calculate minimum timeout.
+            delt = None
+            if csub:
+                delt = min(max(0, min([e[2] - self.help_time(e[1]) for e in csub])) / 1000000000.0, 3600)
+            if pipe:
+                delt = 0
+            ryes, wyes, _ = select.select(
+                [self.fd[fd].host_fd for _, fd in rsub if fd not in pipe],
+                [self.fd[fd].host_fd for _, fd in wsub if fd not in pipe],
+                [],
+                delt,
+            )
+            if pipe or ryes or wyes or any([self.help_time(e[1]) >= e[2] for e in csub]):
+                break
         neve = 0
         for e in csub:
-            if self.help_time(e[1]) < e[3]:
+            if self.help_time(e[1]) < e[2]:
                 continue
             mems.put_u64(outs, e[0])
             mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
@@ -1483,19 +1496,23 @@ class Preview1:
             outs += 32
             neve += 1
         for e in rsub:
-            if self.fd[e[1]].host_fd not in ryes:
+            if e[1] not in pipe and self.fd[e[1]].host_fd not in ryes:
                 continue
             mems.put_u64(outs, e[0])
             mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
             mems.put_u8(outs + 10, self.EVENTTYPE_FD_READ)
+            mems.put_u64(outs + 16, 0)
+            mems.put_u16(outs + 24, 0)
             outs += 32
             neve += 1
         for e in wsub:
-            if self.fd[e[1]].host_fd not in wyes:
+            if e[1] not in pipe and self.fd[e[1]].host_fd not in wyes:
                 continue
             mems.put_u64(outs, e[0])
             mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
             mems.put_u8(outs + 10, self.EVENTTYPE_FD_WRITE)
+            mems.put_u64(outs + 16, 0)
+            mems.put_u16(outs + 24, 0)
             outs += 32
             neve += 1
         mems.put_u32(nout, neve)
-- 
2.43.0


From dcf8fdbb1142712f6f9e48f1501c88203f55fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 45/54] fix: sock_accept keeps the accepted connection open

---
 pywasm/wasi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 02ecfc7..8b72d25 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1561,10 +1561,11 @@ class Preview1:
         if args[1] & self.FDFLAGS_NONBLOCK:
             sock.setblocking(False)
         conn, _ = sock.accept()
-        host_fd = conn.fileno()
+        host_fd = conn.detach()
         wasm_fd = len(self.fd)
         self.fd.append(self.File(
             host_fd=host_fd,
+            host_flag=0,
             host_name=file.host_name,
             host_status=self.FILE_STATUS_OPENED,
             pipe=None,
-- 
2.43.0


From 0ccfcde73050d72465addfcd2d74ed9bfd52ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 46/54] fix: positioned reads and writes need the right to seek

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 8b72d25..1c7166c 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -751,7 +751,7 @@ class Preview1:
             return [self.ERRNO_BADF]
         if self.help_idir(args[0]):
             return [self.ERRNO_ISDIR]
-        if self.help_perm(args[0], self.RIGHTS_FD_READ):
+        if self.help_perm(args[0], self.RIGHTS_FD_READ) or self.help_perm(args[0], self.RIGHTS_FD_SEEK):
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
@@ -790,7 +790,7 @@ class Preview1:
             return [self.ERRNO_BADF]
         if self.help_idir(args[0]):
             return [self.ERRNO_ISDIR]
-        if self.help_perm(args[0], self.RIGHTS_FD_WRITE):
+        if self.help_perm(args[0], self.RIGHTS_FD_WRITE) or self.help_perm(args[0], self.RIGHTS_FD_SEEK):
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-- 
2.43.0


From 913591ed6c12f517fbe1f50380eab5f974da50e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 47/54] fix: descriptors are dead after the program ended

---
 pywasm/wasi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 1c7166c..067e7a0 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1112,6 +1112,7 @@ class Preview1:
                 if e.host_status != self.FILE_STATUS_CLOSED:
                     os.close(e.host_fd)
                     e.host_status = self.FILE_STATUS_CLOSED
+                    e.wasm_status = self.FILE_STATUS_CLOSED
 
     def path_create_directory(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Create a directory.
-- 
2.43.0


From cec1271673fa48d2a5776aa3937ff43b2e0bf11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 48/54] fix: sock_recv reported flags it does not have and
 wrote them as 32 bits

---
 pywasm/wasi.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 067e7a0..5e5d370 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1611,13 +1611,10 @@ class Preview1:
             size_all += elem_len
             iovs_ptr += 8
         try:
-            data = sock.recv(size_all, ri_flags)
+            data, _, ms_flags, _ = sock.recvmsg(size_all, 0, ri_flags)
         except BrokenPipeError:
             return [self.ERRNO_PIPE]
         data_len = len(data)
-        # If no data received, check for connection closure.
-        if data_len == 0 and file.wasm_type == self.FILETYPE_SOCKET_STREAM:
-            ro_flags |= self.EVENTRWFLAGS_FD_READWRITE_HANGUP
         # Distribute data across iovec buffers.
         iovs_ptr = args[1]
         offs = 0
@@ -1631,10 +1628,11 @@ class Preview1:
                 mems.put(elem_ptr, bytearray(data[offs:offs + size]))
                 offs += size
             iovs_ptr += 8
-        if data_len < size_all:
+        # Only the rest of a datagram is discarded.
+        if ms_flags & socket.MSG_TRUNC:
             ro_flags |= self.ROFLAGS_RECV_DATA_TRUNCATED
         mems.put_u32(args[4], data_len)
-        mems.put_u32(args[5], ro_flags)
+        mems.put_u16(args[5], ro_flags)
         return [self.ERRNO_SUCCESS]
 
     def sock_send(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 864301c47071111c5ff1d48fa4474d60dc8fc135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 49/54] fix: sock_accept made the listening socket non-blocking
 instead of the connection

---
 pywasm/wasi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 5e5d370..158cbd0 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1559,9 +1559,8 @@ class Preview1:
             self.FILETYPE_SOCKET_DGRAM: socket.SOCK_DGRAM,
         }[file.wasm_type]
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
-        if args[1] & self.FDFLAGS_NONBLOCK:
-            sock.setblocking(False)
         conn, _ = sock.accept()
+        conn.setblocking(not args[1] & self.FDFLAGS_NONBLOCK)
         host_fd = conn.detach()
         wasm_fd = len(self.fd)
         self.fd.append(self.File(
-- 
2.43.0


From 3aad9585df2fd4e64dd53e4d75acfbb17f4ea128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 50/54] fix: sock_recv took data off the socket for buffers
 that are out of bounds

---
 pywasm/wasi.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 158cbd0..9256399 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1604,11 +1604,7 @@ class Preview1:
         if args[3] & self.RIFLAGS_RECV_WAITALL and file.wasm_type == self.FILETYPE_SOCKET_STREAM:
             # Only meaningful for stream sockets.
             ri_flags |= socket.MSG_WAITALL
-        size_all = 0
-        for _ in range(iovs_len):
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            size_all += elem_len
-            iovs_ptr += 8
+        size_all = self.help_iovs(mems, iovs_ptr, iovs_len)
         try:
             data, _, ms_flags, _ = sock.recvmsg(size_all, 0, ri_flags)
         except BrokenPipeError:
-- 
2.43.0


From 5e3f9a21c209b99545858c07516f304bfb16e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:33 +0000
Subject: [PATCH 51/54] fix: arguments, environment and preopen names that are
 not UTF-8 could not be read by the guest

---
 pywasm/wasi.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 9256399..9873602 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -491,8 +491,8 @@ class Preview1:
         for e in self.args:
             mems.put_u32(argv, argv_buf)
             argv += 4
-            mems.put(argv_buf, bytearray(e.encode()))
-            argv_buf += len(e.encode())
+            mems.put(argv_buf, bytearray(e.encode(errors='surrogateescape')))
+            argv_buf += len(e.encode(errors='surrogateescape'))
             mems.put_u8(argv_buf, 0)
             argv_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -501,7 +501,7 @@ class Preview1:
         # Return command-line argument data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.args))
-        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.args]))
+        mems.put_u32(args[1], sum([len(e.encode(errors='surrogateescape')) + 1 for e in self.args]))
         return [self.ERRNO_SUCCESS]
 
     def bind(self, runtime: pywasm.core.Runtime) -> None:
@@ -583,8 +583,8 @@ class Preview1:
         for e in self.envs:
             mems.put_u32(environ, environ_buf)
             environ += 4
-            mems.put(environ_buf, bytearray(e.encode()))
-            environ_buf += len(e.encode())
+            mems.put(environ_buf, bytearray(e.encode(errors='surrogateescape')))
+            environ_buf += len(e.encode(errors='surrogateescape'))
             mems.put_u8(environ_buf, 0)
             environ_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -593,7 +593,7 @@ class Preview1:
         # Return environment variable data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.envs))
-        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.envs]))
+        mems.put_u32(args[1], sum([len(e.encode(errors='surrogateescape')) + 1 for e in self.envs]))
         return [self.ERRNO_SUCCESS]
 
     def fd_advise(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -767,7 +767,7 @@ class Preview1:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = bytearray(file.wasm_name.encode())
+        name = bytearray(file.wasm_name.encode(errors='surrogateescape'))
         if len(name) > args[2]:
             return [self.ERRNO_NAMETOOLONG]
         mems.put(args[1], name)
@@ -779,7 +779,7 @@ class Preview1:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = bytearray(file.wasm_name.encode())
+        name = bytearray(file.wasm_name.encode(errors='surrogateescape'))
         mems.put_u8(args[1], self.PREOPENTYPE_DIR)
         mems.put_u32(args[1] + 4, len(name))
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 01b7455957bc649511a6c33c13b14945dec9da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 52/54] fix: a directory changed while it was being listed made
 the listing skip or repeat entries

---
 pywasm/wasi.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 9873602..270d926 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -410,6 +410,8 @@ class Preview1:
         wasm_status: int
         wasm_type: int
         wasm_prestat: bool = False
+        # Entries of the directory when its listing was begun, which is what cookies count.
+        listing: typing.Optional[typing.List[str]] = None
 
     def __init__(self, args: typing.List[str], dirs: typing.Dict[str, str], envs: typing.Dict[str, str]):
         self.args = args
@@ -836,14 +838,19 @@ class Preview1:
         file = self.fd[args[0]]
         cookie = args[3] & 0xffffffffffffffff
         buflen = args[2]
-        result = ['.', '..', *sorted(os.listdir(file.host_fd))]
+        if cookie == 0 or file.listing is None:
+            file.listing = ['.', '..', *sorted(os.listdir(file.host_fd))]
         dirent = bytearray()
-        for name in result[cookie:]:
+        for name in file.listing[cookie:]:
             if len(dirent) >= buflen:
                 break
-            info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=False)
-            data = os.fsencode(name)
             cookie += 1
+            try:
+                info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=False)
+            except FileNotFoundError:
+                # The entry was removed after the listing was begun.
+                continue
+            data = os.fsencode(name)
             dirent.extend(struct.pack('<QQIBxxx', cookie, info.st_ino, len(data), self.help_wasm_type(info)) + data)
         # The last entry is cut off where the buffer ends.
         dirent = dirent[:buflen]
@@ -873,6 +880,7 @@ class Preview1:
         dest.wasm_status = stem.wasm_status
         dest.wasm_type = stem.wasm_type
         dest.wasm_prestat = stem.wasm_prestat
+        dest.listing = stem.listing
         stem.host_status = self.FILE_STATUS_CLOSED
         stem.wasm_status = self.FILE_STATUS_CLOSED
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 37c8fc22261ebd575e0a894a9cada1deccbc9ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 53/54] fix: a program that exited within a host call of
 another destroyed the stack of the other

---
 pywasm/wasi.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 270d926..b193f58 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1102,9 +1102,6 @@ class Preview1:
         try:
             runtime.invocate(module, '_start', [])
         except Exception as e:
-            runtime.machine.stack.frame.clear()
-            runtime.machine.stack.label.clear()
-            runtime.machine.stack.value.clear()
             if len(e.args) >= 1 and e.args[0] == SystemExit:
                 return e.args[1]
             raise e
-- 
2.43.0


From 8a9f6e4dd40b4016fac2f716b74255befffcc95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:37 +0000
Subject: [PATCH 54/54] fix: a file that replaced a standard stream stayed open
 after the program ended

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index b193f58..1e967b1 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1111,7 +1111,7 @@ class Preview1:
             for e in self.fd[self.FD_STDOUT: self.FD_STDERR + 1]:
                 if e.pipe:
                     e.pipe.seek(0)
-            for e in self.fd[self.FD_STDERR + 1:]:
+            for e in self.fd:
                 if e.wasm_type == self.FILETYPE_CHARACTER_DEVICE:
                     continue
                 if e.host_status != self.FILE_STATUS_CLOSED:
-- 
2.43.0

