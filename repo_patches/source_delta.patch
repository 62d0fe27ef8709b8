From 64ed1541749600eb0db52a478c9068538d6e72d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 01/31] fix: interpreter fcmpl/fcmpg/dcmpl/dcmpg push two
 results for NaN operands

---
 src/interpret.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 6ed8fef..f79b970 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1214,8 +1214,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, 1);
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
@@ -1233,8 +1232,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, static_cast<unsigned>(-1));
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
@@ -1468,8 +1466,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, 1);
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
@@ -1487,8 +1484,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, static_cast<unsigned>(-1));
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
-- 
2.43.0


From c211fcb18feaefc389e9d9b28f50c32c655c700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 02/31] fix: interpreter f2l does not saturate out-of-range
 values

---
 src/interpret.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index f79b970..9c08f7e 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1399,7 +1399,10 @@ loop:
       pushLong(t, signbit(f) ? INT64_MIN : INT64_MAX);
       break;
     default:
-      pushLong(t, static_cast<int64_t>(f));
+      pushLong(t,
+               f >= INT64_MAX
+                   ? INT64_MAX
+                   : (f <= INT64_MIN ? INT64_MIN : static_cast<int64_t>(f)));
       break;
     }
   }
-- 
2.43.0


From f94552b90db2cc3dd58846cc5f4696787a6c6bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 03/31] fix: interpreter integer division traps on MIN_VALUE /
 -1

---
 src/interpret.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 9c08f7e..8573489 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1739,7 +1739,7 @@ loop:
       goto throw_;
     }
 
-    pushInt(t, a / b);
+    pushInt(t, (b == -1 and a == INT32_MIN) ? a : a / b);
   }
     goto loop;
 
@@ -2104,7 +2104,7 @@ loop:
       goto throw_;
     }
 
-    pushInt(t, a % b);
+    pushInt(t, b == -1 ? 0 : a % b);
   }
     goto loop;
 
@@ -2354,7 +2354,7 @@ loop:
       goto throw_;
     }
 
-    pushLong(t, a / b);
+    pushLong(t, (b == -1 and a == INT64_MIN) ? a : a / b);
   }
     goto loop;
 
@@ -2451,7 +2451,7 @@ loop:
       goto throw_;
     }
 
-    pushLong(t, a % b);
+    pushLong(t, b == -1 ? 0 : a % b);
   }
     goto loop;
 
-- 
2.43.0


From 33116d94dcdcc07a5b3d3cf0264756c635d763e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 04/31] fix: interpreter treats wide local variable indexes
 above 32767 as negative

---
 src/interpret.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 8573489..02a5b10 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -2934,12 +2934,12 @@ loop:
 wide:
   switch (code->body()[ip++]) {
   case aload: {
-    pushObject(t, localObject(t, codeReadInt16(t, code, ip)));
+    pushObject(t, localObject(t, static_cast<uint16_t>(codeReadInt16(t, code, ip))));
   }
     goto loop;
 
   case astore: {
-    setLocalObject(t, codeReadInt16(t, code, ip), popObject(t));
+    setLocalObject(t, static_cast<uint16_t>(codeReadInt16(t, code, ip)), popObject(t));
   }
     goto loop;
 
@@ -2952,27 +2952,27 @@ wide:
     goto loop;
 
   case iload: {
-    pushInt(t, localInt(t, codeReadInt16(t, code, ip)));
+    pushInt(t, localInt(t, static_cast<uint16_t>(codeReadInt16(t, code, ip))));
   }
     goto loop;
 
   case istore: {
-    setLocalInt(t, codeReadInt16(t, code, ip), popInt(t));
+    setLocalInt(t, static_cast<uint16_t>(codeReadInt16(t, code, ip)), popInt(t));
   }
     goto loop;
 
   case lload: {
-    pushLong(t, localLong(t, codeReadInt16(t, code, ip)));
+    pushLong(t, localLong(t, static_cast<uint16_t>(codeReadInt16(t, code, ip))));
   }
     goto loop;
 
   case lstore: {
-    setLocalLong(t, codeReadInt16(t, code, ip), popLong(t));
+    setLocalLong(t, static_cast<uint16_t>(codeReadInt16(t, code, ip)), popLong(t));
   }
     goto loop;
 
   case ret: {
-    ip = localInt(t, codeReadInt16(t, code, ip));
+    ip = localInt(t, static_cast<uint16_t>(codeReadInt16(t, code, ip)));
   }
     goto loop;
 
-- 
2.43.0


From cc787db56ce756d58a95897d90e224549c4871e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 05/31] fix: interpreter aborts on wide
 fload/fstore/dload/dstore

---
 src/interpret.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 02a5b10..3faeb82 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -2951,22 +2951,26 @@ wide:
   }
     goto loop;
 
-  case iload: {
+  case iload:
+  case fload: {
     pushInt(t, localInt(t, static_cast<uint16_t>(codeReadInt16(t, code, ip))));
   }
     goto loop;
 
-  case istore: {
+  case istore:
+  case fstore: {
     setLocalInt(t, static_cast<uint16_t>(codeReadInt16(t, code, ip)), popInt(t));
   }
     goto loop;
 
-  case lload: {
+  case lload:
+  case dload: {
     pushLong(t, localLong(t, static_cast<uint16_t>(codeReadInt16(t, code, ip))));
   }
     goto loop;
 
-  case lstore: {
+  case lstore:
+  case dstore: {
     setLocalLong(t, static_cast<uint16_t>(codeReadInt16(t, code, ip)), popLong(t));
   }
     goto loop;
-- 
2.43.0


From b963598816560e70479a3dda2fee3fa0d0bb3e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 06/31] fix: array allocation size wraps at 4GB, giving an
 array smaller than its length

---
 src/machine.cpp                   | 17 +++++++++++++++++
 src/tools/type-generator/main.cpp |  7 +++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index 1383da4..b72ee68 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -6288,6 +6288,23 @@ void noop()
 {
 }
 
+// The allocator and the collector measure objects in 32 bits, so we
+// must refuse to allocate any array which would exceed that (with
+// some room left for the collector's own header and mask).
+const unsigned MaxArraySizeInBytes = 0x78000000;
+
+inline unsigned arraySizeInBytes(Thread* t,
+                                 unsigned fixedSize,
+                                 uintptr_t length,
+                                 unsigned elementSize)
+{
+  if (UNLIKELY(length > (MaxArraySizeInBytes - fixedSize) / elementSize)) {
+    throw_(t, roots(t)->outOfMemoryError());
+  }
+
+  return fixedSize + pad(length * elementSize);
+}
+
 #include "type-constructors.cpp"
 
 }  // namespace vm
diff --git a/src/tools/type-generator/main.cpp b/src/tools/type-generator/main.cpp
index 4073592..817cf06 100644
--- a/src/tools/type-generator/main.cpp
+++ b/src/tools/type-generator/main.cpp
@@ -863,11 +863,14 @@ void writeOffset(Output* out, size_t offset)
 
 void writeOffset(Output* out, Class* cl)
 {
-  out->write(cl->fixedSize);
   if (cl->arrayField) {
-    out->write(" + pad(length * ");
+    out->write("arraySizeInBytes(t, ");
+    out->write(cl->fixedSize);
+    out->write(", length, ");
     out->write(cl->arrayField->elementSize);
     out->write(")");
+  } else {
+    out->write(cl->fixedSize);
   }
 }
 
-- 
2.43.0


From 5d98880aa8ba489521595f6100388d75627dc402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 07/31] fix: interpreter sign-extends char fields

---
 src/interpret.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 3faeb82..be7daad 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -733,6 +733,9 @@ void pushField(Thread* t, object target, GcField* field)
     break;
 
   case CharField:
+    pushInt(t, fieldAtOffset<uint16_t>(target, field->offset()));
+    break;
+
   case ShortField:
     pushInt(t, fieldAtOffset<int16_t>(target, field->offset()));
     break;
-- 
2.43.0


From f402c87c9a26b4fd08932e0ebb1839c290ba39c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 08/31] fix: compiled code's division helpers trap on MIN_VALUE
 / -1

---
 src/compile.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 37ff053..5547b90 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2593,7 +2593,9 @@ void NO_RETURN throwArithmetic(MyThread* t)
 int64_t divideLong(MyThread* t, int64_t b, int64_t a)
 {
   if (LIKELY(b)) {
-    return a / b;
+    // the minimum value divided by -1 overflows, which traps on some
+    // platforms
+    return b == -1 ? static_cast<int64_t>(-static_cast<uint64_t>(a)) : a / b;
   } else {
     throwArithmetic(t);
   }
@@ -2602,7 +2604,9 @@ int64_t divideLong(MyThread* t, int64_t b, int64_t a)
 int64_t divideInt(MyThread* t, int32_t b, int32_t a)
 {
   if (LIKELY(b)) {
-    return a / b;
+    // the minimum value divided by -1 overflows, which traps on some
+    // platforms
+    return b == -1 ? static_cast<int32_t>(-static_cast<uint32_t>(a)) : a / b;
   } else {
     throwArithmetic(t);
   }
@@ -2611,7 +2615,7 @@ int64_t divideInt(MyThread* t, int32_t b, int32_t a)
 int64_t moduloLong(MyThread* t, int64_t b, int64_t a)
 {
   if (LIKELY(b)) {
-    return a % b;
+    return b == -1 ? 0 : a % b;
   } else {
     throwArithmetic(t);
   }
@@ -2620,7 +2624,7 @@ int64_t moduloLong(MyThread* t, int64_t b, int64_t a)
 int64_t moduloInt(MyThread* t, int32_t b, int32_t a)
 {
   if (LIKELY(b)) {
-    return a % b;
+    return b == -1 ? 0 : a % b;
   } else {
     throwArithmetic(t);
   }
-- 
2.43.0


From ffe3458aa9d31fcc33a17301605cc8e49df54bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 09/31] fix: lazily resolved char field reads are sign-extended
 in compiled code

---
 src/compile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 5547b90..390a823 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2903,6 +2903,8 @@ uint64_t getFieldValue(Thread* t, object target, GcField* field)
     return fieldAtOffset<int8_t>(target, field->offset());
 
   case CharField:
+    return fieldAtOffset<uint16_t>(target, field->offset());
+
   case ShortField:
     return fieldAtOffset<int16_t>(target, field->offset());
 
-- 
2.43.0


From fca1940a15175154dc6cf8274dcdc756924681be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 10/31] fix: a null receiver of a lazily resolved member access
 aborts compiled code

---
 src/compile.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 390a823..307332a 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2531,6 +2531,10 @@ int64_t findVirtualMethodFromReference(MyThread* t,
 
   GcMethod* target = resolveMethod(t, pair);
 
+  if (UNLIKELY(instance == 0)) {
+    throwNew(t, GcNullPointerException::Type);
+  }
+
   target = findVirtualMethod(t, target, objectClass(t, instance));
 
   checkMethod(t, target, false);
@@ -2875,6 +2879,13 @@ void checkCastFromReference(MyThread* t, GcPair* pair, object o)
   checkCast(t, c, o);
 }
 
+void checkNull(MyThread* t, object o)
+{
+  if (UNLIKELY(o == 0)) {
+    throwNew(t, GcNullPointerException::Type);
+  }
+}
+
 GcField* resolveField(Thread* t, GcPair* pair)
 {
   GcReference* reference = cast<GcReference>(t, pair->second());
@@ -2941,6 +2952,7 @@ uint64_t getFieldValueFromReference(MyThread* t, GcPair* pair, object instance)
   PROTECT(t, instance);
 
   GcField* field = resolveField(t, pair);
+  checkNull(t, instance);
   PROTECT(t, field);
 
   ACQUIRE_FIELD_FOR_READ(t, field);
@@ -2971,6 +2983,7 @@ void setLongFieldValueFromReference(MyThread* t,
   PROTECT(t, instance);
 
   GcField* field = resolveField(t, pair);
+  checkNull(t, instance);
   PROTECT(t, field);
 
   ACQUIRE_FIELD_FOR_WRITE(t, field);
@@ -3003,6 +3016,7 @@ void setObjectFieldValueFromReference(MyThread* t,
   PROTECT(t, value);
 
   GcField* field = resolveField(t, pair);
+  checkNull(t, instance);
   PROTECT(t, field);
 
   ACQUIRE_FIELD_FOR_WRITE(t, field);
@@ -3052,6 +3066,7 @@ void setFieldValueFromReference(MyThread* t,
 {
   PROTECT(t, instance);
   GcField* field = resolveField(t, pair);
+  checkNull(t, instance);
   PROTECT(t, field);
 
   ACQUIRE_FIELD_FOR_WRITE(t, field);
-- 
2.43.0


From 0f84200c211d8d93662ca6c3f2721052476090f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 11/31] fix: x86 code generator rejects shift counts outside
 the operand's width

---
 src/codegen/target/x86/operations.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/target/x86/operations.cpp b/src/codegen/target/x86/operations.cpp
index d9cbde1..2e79999 100644
--- a/src/codegen/target/x86/operations.cpp
+++ b/src/codegen/target/x86/operations.cpp
@@ -1359,13 +1359,13 @@ void doShift(Context* c,
              unsigned bSize,
              lir::RegisterPair* b)
 {
-  int64_t v = a->value->value();
+  int64_t v = a->value->value() & (bSize == 8 ? 0x3F : 0x1F);
 
   if (vm::TargetBytesPerWord == 4 and bSize == 8) {
     c->client->save(rcx);
 
     lir::RegisterPair cx(rcx);
-    ResolvedPromise promise(v & 0x3F);
+    ResolvedPromise promise(v);
     lir::Constant masked(&promise);
     moveCR(c, 4, &masked, 4, &cx);
     shift(c, aSize, &cx, bSize, b);
-- 
2.43.0


From 70a54f0e8a60ac0eed8d22faa06f85c9d9edbe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 12/31] fix: constant-folded int branches compare unsigned
 operands

---
 src/codegen/compiler/event.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/codegen/compiler/event.cpp b/src/codegen/compiler/event.cpp
index 575bede..98bc317 100644
--- a/src/codegen/compiler/event.cpp
+++ b/src/codegen/compiler/event.cpp
@@ -1597,6 +1597,12 @@ bool shouldJump(Context* c,
                 int64_t b,
                 int64_t a)
 {
+  if (size == 4) {
+    // the upper half of a 32-bit constant carries no meaning
+    a = static_cast<int32_t>(a);
+    b = static_cast<int32_t>(b);
+  }
+
   switch (op) {
   case lir::JumpIfEqual:
     return a == b;
-- 
2.43.0


From 563893aca2dd25738112af5688030d434f4fa858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 13/31] fix: compiler aborts on wide fload/fstore/dload/dstore
 and on indexes above 32767

---
 src/compile.cpp | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 307332a..e8705b4 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -6401,11 +6401,13 @@ loop:
     case wide: {
       switch (code->body()[ip++]) {
       case aload: {
-        frame->load(ir::Type::object(), codeReadInt16(t, code, ip));
+        frame->load(ir::Type::object(),
+                    static_cast<uint16_t>(codeReadInt16(t, code, ip)));
       } break;
 
       case astore: {
-        frame->store(ir::Type::object(), codeReadInt16(t, code, ip));
+        frame->store(ir::Type::object(),
+                    static_cast<uint16_t>(codeReadInt16(t, code, ip)));
       } break;
 
       case iinc: {
@@ -6423,23 +6425,47 @@ loop:
       } break;
 
       case iload: {
-        frame->load(ir::Type::i4(), codeReadInt16(t, code, ip));
+        frame->load(ir::Type::i4(),
+                    static_cast<uint16_t>(codeReadInt16(t, code, ip)));
       } break;
 
       case istore: {
-        frame->store(ir::Type::i4(), codeReadInt16(t, code, ip));
+        frame->store(ir::Type::i4(),
+                    static_cast<uint16_t>(codeReadInt16(t, code, ip)));
       } break;
 
       case lload: {
-        frame->loadLarge(ir::Type::i8(), codeReadInt16(t, code, ip));
+        frame->loadLarge(ir::Type::i8(),
+                    static_cast<uint16_t>(codeReadInt16(t, code, ip)));
       } break;
 
       case lstore: {
-        frame->storeLarge(ir::Type::i8(), codeReadInt16(t, code, ip));
+        frame->storeLarge(ir::Type::i8(),
+                    static_cast<uint16_t>(codeReadInt16(t, code, ip)));
+      } break;
+
+      case fload: {
+        frame->load(ir::Type::f4(),
+                    static_cast<uint16_t>(codeReadInt16(t, code, ip)));
+      } break;
+
+      case fstore: {
+        frame->store(ir::Type::f4(),
+                    static_cast<uint16_t>(codeReadInt16(t, code, ip)));
+      } break;
+
+      case dload: {
+        frame->loadLarge(ir::Type::f8(),
+                    static_cast<uint16_t>(codeReadInt16(t, code, ip)));
+      } break;
+
+      case dstore: {
+        frame->storeLarge(ir::Type::f8(),
+                    static_cast<uint16_t>(codeReadInt16(t, code, ip)));
       } break;
 
       case ret: {
-        unsigned index = codeReadInt16(t, code, ip);
+        uint16_t index = codeReadInt16(t, code, ip);
 
         unsigned returnAddress = frame->endSubroutine(index);
         c->jmp(frame->machineIpValue(returnAddress));
-- 
2.43.0


From b158bdc50ed354443406c4949e2ed1c0f8c7fe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 14/31] fix: compiled lcmp compares its operands as unsigned

---
 src/codegen/runtime.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codegen/runtime.cpp b/src/codegen/runtime.cpp
index b868464..37e776d 100644
--- a/src/codegen/runtime.cpp
+++ b/src/codegen/runtime.cpp
@@ -98,8 +98,11 @@ int64_t compareFloatsL(uint32_t bi, uint32_t ai)
   }
 }
 
-int64_t compareLongs(uint64_t b, uint64_t a)
+int64_t compareLongs(uint64_t bi, uint64_t ai)
 {
+  int64_t a = static_cast<int64_t>(ai);
+  int64_t b = static_cast<int64_t>(bi);
+
   if (a < b) {
     return -1;
   } else if (a > b) {
-- 
2.43.0


From 6c2bba2ddd31b74fbf7f9856871724404cc3aab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 15/31] fix: compiled f2l does not saturate out-of-range values

---
 src/codegen/runtime.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codegen/runtime.cpp b/src/codegen/runtime.cpp
index 37e776d..ca54326 100644
--- a/src/codegen/runtime.cpp
+++ b/src/codegen/runtime.cpp
@@ -256,7 +256,9 @@ int64_t floatToLong(int32_t a)
   case FP_INFINITE:
     return signbit(f) ? INT64_MIN : INT64_MAX;
   default:
-    return static_cast<int64_t>(f);
+    return f >= INT64_MAX
+               ? INT64_MAX
+               : (f <= INT64_MIN ? INT64_MIN : static_cast<int64_t>(f));
   }
 }
 
-- 
2.43.0


From 9535dcfdca1b6ac2d7a8ec23f241b64d35bdffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 16/31] fix: compiled int and long division traps on MIN_VALUE
 / -1

---
 src/codegen/target/x86/operations.cpp | 43 ++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/codegen/target/x86/operations.cpp b/src/codegen/target/x86/operations.cpp
index 2e79999..a7c7219 100644
--- a/src/codegen/target/x86/operations.cpp
+++ b/src/codegen/target/x86/operations.cpp
@@ -1306,6 +1306,39 @@ void multiplyCR(Context* c,
   }
 }
 
+// Divides rax by a, leaving the quotient in rax and the remainder in
+// rdx.  Java defines MIN_VALUE / -1, for which idiv traps, so a
+// divisor of -1 is handled without it.
+static void divide(Context* c,
+                   unsigned size,
+                   lir::RegisterPair* a,
+                   lir::RegisterPair* b)
+{
+  maybeRex(c, size, a);
+  opcode(c, 0x83, 0xf8 + regCode(a));  // cmp $-1, a
+  c->code.append(0xff);
+  opcode(c, 0x75, 0);  // jne 1f
+  const size_t minusOne = c->code.length();
+
+  maybeRex(c, size, b);
+  opcode(c, 0xf7, 0xd8 + regCode(b));  // neg rax
+  opcode(c, 0x31, 0xd2);               // xor edx, edx
+  opcode(c, 0xeb, 0);                  // jmp 2f
+  const size_t other = c->code.length();
+
+  // 1:
+  maybeRex(c, size, a, b);
+  opcode(c, 0x99);  // cdq
+  maybeRex(c, size, b, a);
+  opcode(c, 0xf7, 0xf8 + regCode(a));  // idiv a
+
+  // 2:
+  const uint8_t toOther = other - minusOne;
+  const uint8_t toEnd = c->code.length() - other;
+  c->code.set(minusOne - 1, &toOther, 1);
+  c->code.set(other - 1, &toEnd, 1);
+}
+
 void divideRR(Context* c,
               unsigned aSize,
               lir::RegisterPair* a,
@@ -1319,10 +1352,7 @@ void divideRR(Context* c,
 
   c->client->save(rdx);
 
-  maybeRex(c, aSize, a, b);
-  opcode(c, 0x99);  // cdq
-  maybeRex(c, aSize, b, a);
-  opcode(c, 0xf7, 0xf8 + regCode(a));
+  divide(c, aSize, a, b);
 }
 
 void remainderRR(Context* c,
@@ -1338,10 +1368,7 @@ void remainderRR(Context* c,
 
   c->client->save(rdx);
 
-  maybeRex(c, aSize, a, b);
-  opcode(c, 0x99);  // cdq
-  maybeRex(c, aSize, b, a);
-  opcode(c, 0xf7, 0xf8 + regCode(a));
+  divide(c, aSize, a, b);
 
   lir::RegisterPair dx(rdx);
   moveRR(c, vm::TargetBytesPerWord, &dx, vm::TargetBytesPerWord, b);
-- 
2.43.0


From 96712e7909b90d37a05a62f1051ee63338d6d5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:31 +0000
Subject: [PATCH 17/31] fix: invokeinterface on an object whose class does not
 implement the interface aborted the virtual machine

---
 src/avian/machine.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index 46b3909..5ca4ab5 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -2705,13 +2705,21 @@ inline GcMethod* findInterfaceMethod(Thread* t,
 
   GcClass* interface = method->class_();
   GcArray* itable = cast<GcArray>(t, class_->interfaceTable());
-  for (unsigned i = 0; i < itable->length(); i += 2) {
-    if (itable->body()[i] == interface) {
-      return cast<GcMethod>(
-          t, cast<GcArray>(t, itable->body()[i + 1])->body()[method->offset()]);
+  if (itable) {
+    for (unsigned i = 0; i < itable->length(); i += 2) {
+      if (itable->body()[i] == interface) {
+        return cast<GcMethod>(
+            t,
+            cast<GcArray>(t, itable->body()[i + 1])->body()[method->offset()]);
+      }
     }
   }
-  abort(t);
+
+  throwNew(t,
+           GcIncompatibleClassChangeError::Type,
+           "%s does not implement %s",
+           class_->name()->body().begin(),
+           interface->name()->body().begin());
 }
 
 inline unsigned objectArrayLength(Thread* t UNUSED, object array)
-- 
2.43.0


From 37b8808853d63cb7c0f2602e54667be0a83743b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 18/31] fix: compiled code lost local variables when a null
 receiver or array was caught in the same method

---
 src/compile.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index e8705b4..1c5c826 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -4399,9 +4399,16 @@ loop:
       goto next;
 
     case arraylength: {
+      ir::Value* array = frame->pop(ir::Type::object());
+
+      if (inTryBlock(t, code, ip - 1)) {
+        c->saveLocals();
+        frame->trace(0, 0);
+      }
+
       frame->push(ir::Type::i4(),
                   c->load(ir::ExtendMode::Signed,
-                          c->memory(frame->pop(ir::Type::object()),
+                          c->memory(array,
                                     ir::Type::iptr(),
                                     TargetArrayLength),
                           ir::Type::i4()));
@@ -5503,6 +5510,11 @@ loop:
 
             ir::Value* instance = c->peek(1, parameterFootprint - 1);
 
+            if (inTryBlock(t, code, ip - 3)) {
+              c->saveLocals();
+              frame->trace(0, 0);
+            }
+
             frame->stackCall(
                 c->memory(c->binaryOp(
                               lir::And,
-- 
2.43.0


From 347abfe8c495f5e24d2b65121dd8044d1df66efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 19/31] fix: compiled code dropped the NullPointerException of
 a field or length load whose result is unused

---
 src/codegen/compiler.cpp       | 15 ++++++++++++++-
 src/codegen/compiler/event.cpp | 11 +++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/codegen/compiler.cpp b/src/codegen/compiler.cpp
index 24ac8c9..9f03e74 100644
--- a/src/codegen/compiler.cpp
+++ b/src/codegen/compiler.cpp
@@ -787,6 +787,13 @@ void saveLocals(Context* c, Event* e)
   }
 }
 
+bool mayTrap(Context* c, Site* s)
+{
+  return s->type(c) == lir::Operand::Type::Memory
+         and static_cast<MemorySite*>(s)->base != c->arch->stack()
+         and static_cast<MemorySite*>(s)->base != c->arch->thread();
+}
+
 void maybeMove(Context* c,
                lir::BinaryOperation op,
                unsigned srcSize,
@@ -803,7 +810,13 @@ void maybeMove(Context* c,
   if (dstValue->target) {
     target = dstValue->target;
   } else if (isStore) {
-    return;
+    if (not mayTrap(c, srcValue->source)) {
+      return;
+    }
+
+    // the result is not used, but the load must still raise a
+    // NullPointerException if the reference is null:
+    target = freeRegisterSite(c, dstMask.registerMask);
   } else {
     target = pickTargetSite(c, read);
   }
diff --git a/src/codegen/compiler/event.cpp b/src/codegen/compiler/event.cpp
index 98bc317..37738f7 100644
--- a/src/codegen/compiler/event.cpp
+++ b/src/codegen/compiler/event.cpp
@@ -74,6 +74,8 @@ Read* live(Context* c UNUSED, Value* v);
 
 void popRead(Context* c, Event* e UNUSED, Value* v);
 
+bool mayTrap(Context* c, Site* s);
+
 void maybeMove(Context* c,
                lir::BinaryOperation op,
                unsigned srcSize,
@@ -849,6 +851,15 @@ class MoveEvent : public Event {
                     dstValue,
                     dstLowMask);
         }
+      } else if (live(c, dstValue) == 0 and mayTrap(c, srcValue->source)) {
+        maybeMove(c,
+                  lir::Move,
+                  c->targetInfo.pointerSize,
+                  c->targetInfo.pointerSize,
+                  srcValue,
+                  c->targetInfo.pointerSize,
+                  dstValue,
+                  dstLowMask);
       } else {
         Site* low = pickSiteOrMove(c, srcValue, dstValue, 0, 0);
         if (dstSize > c->targetInfo.pointerSize) {
-- 
2.43.0


From a5a279946fa6c2867b38792da947d539d6ba5725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 20/31] fix: compiled code did not check the receiver of a
 private method for null

---
 src/compile.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 1c5c826..19a3f94 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -3482,6 +3482,33 @@ bool inTryBlock(MyThread* t UNUSED, GcCode* code, unsigned ip)
   return false;
 }
 
+// call a private method directly, raising a NullPointerException if the
+// receiver is null
+bool compilePrivateInvoke(MyThread* t,
+                          Frame* frame,
+                          GcCode* code,
+                          unsigned ip,
+                          GcMethod* target,
+                          bool tailCall)
+{
+  if (target->flags() & ACC_PRIVATE and target->name()->body()[0] != '<') {
+    avian::codegen::Compiler* c = frame->c;
+
+    ir::Value* instance = c->peek(1, target->parameterFootprint() - 1);
+
+    if (inTryBlock(t, code, ip)) {
+      c->saveLocals();
+      frame->trace(0, 0);
+    }
+
+    c->load(ir::ExtendMode::Signed,
+            c->memory(instance, ir::Type::iptr()),
+            ir::Type::iptr());
+  }
+
+  return compileDirectInvoke(t, frame, target, tailCall);
+}
+
 bool needsReturnBarrier(MyThread* t UNUSED, GcMethod* method)
 {
   return (method->flags() & ConstructorFlag)
@@ -5437,7 +5464,7 @@ loop:
           compileDirectAbstractInvoke(
               t, frame, getMethodAddressThunk, target, tailCall);
         } else {
-          compileDirectInvoke(t, frame, target, tailCall);
+          compilePrivateInvoke(t, frame, code, ip - 3, target, tailCall);
         }
       } else {
         GcReference* ref = cast<GcReference>(t, reference);
@@ -5531,7 +5558,7 @@ loop:
             // (e.g. readObject and writeObject for serialization), so
             // we must handle such cases here.
 
-            compileDirectInvoke(t, frame, target, tailCall);
+            compilePrivateInvoke(t, frame, code, ip - 3, target, tailCall);
           }
         }
       } else {
-- 
2.43.0


From 5f29d1132a45640ef15e7224555b5cfc5e674487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:35 +0000
Subject: [PATCH 21/31] fix: lazily resolved members of the wrong kind (static
 or not) were accessed instead of raising IncompatibleClassChangeError

---
 src/compile.cpp | 73 ++++++++++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 19a3f94..91786c9 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2474,6 +2474,8 @@ int64_t findInterfaceMethodFromInstance(MyThread* t,
   }
 }
 
+void checkMethod(Thread* t, GcMethod* method, bool shouldBeStatic);
+
 int64_t findInterfaceMethodFromInstanceAndReference(MyThread* t,
                                                     GcPair* pair,
                                                     object instance)
@@ -2482,6 +2484,8 @@ int64_t findInterfaceMethodFromInstanceAndReference(MyThread* t,
 
   GcMethod* method = resolveMethod(t, pair);
 
+  checkMethod(t, method, false);
+
   return findInterfaceMethodFromInstance(t, method, instance);
 }
 
@@ -2531,13 +2535,15 @@ int64_t findVirtualMethodFromReference(MyThread* t,
 
   GcMethod* target = resolveMethod(t, pair);
 
+  checkMethod(t, target, false);
+
   if (UNLIKELY(instance == 0)) {
     throwNew(t, GcNullPointerException::Type);
   }
 
-  target = findVirtualMethod(t, target, objectClass(t, instance));
-
-  checkMethod(t, target, false);
+  if (LIKELY(methodVirtual(t, target))) {
+    target = findVirtualMethod(t, target, objectClass(t, instance));
+  }
 
   return prepareMethodForCall(t, target);
 }
@@ -2886,7 +2892,19 @@ void checkNull(MyThread* t, object o)
   }
 }
 
-GcField* resolveField(Thread* t, GcPair* pair)
+void checkField(Thread* t, GcField* field, bool shouldBeStatic)
+{
+  if (((field->flags() & ACC_STATIC) == 0) == shouldBeStatic) {
+    throwNew(t,
+             GcIncompatibleClassChangeError::Type,
+             "expected %s.%s to be %s",
+             field->class_()->name()->body().begin(),
+             field->name()->body().begin(),
+             shouldBeStatic ? "static" : "non-static");
+  }
+}
+
+GcField* resolveField(Thread* t, GcPair* pair, bool shouldBeStatic)
 {
   GcReference* reference = cast<GcReference>(t, pair->second());
   PROTECT(t, reference);
@@ -2897,13 +2915,18 @@ GcField* resolveField(Thread* t, GcPair* pair)
       reference,
       ReferenceClass);
 
-  return cast<GcField>(t,
-                       findInHierarchy(t,
-                                       class_,
-                                       reference->name(),
-                                       reference->spec(),
-                                       findFieldInClass,
-                                       GcNoSuchFieldError::Type));
+  GcField* field
+      = cast<GcField>(t,
+                      findInHierarchy(t,
+                                      class_,
+                                      reference->name(),
+                                      reference->spec(),
+                                      findFieldInClass,
+                                      GcNoSuchFieldError::Type));
+
+  checkField(t, field, shouldBeStatic);
+
+  return field;
 }
 
 uint64_t getFieldValue(Thread* t, object target, GcField* field)
@@ -2937,7 +2960,7 @@ uint64_t getFieldValue(Thread* t, object target, GcField* field)
 
 uint64_t getStaticFieldValueFromReference(MyThread* t, GcPair* pair)
 {
-  GcField* field = resolveField(t, pair);
+  GcField* field = resolveField(t, pair, true);
   PROTECT(t, field);
 
   initClass(t, field->class_());
@@ -2951,7 +2974,7 @@ uint64_t getFieldValueFromReference(MyThread* t, GcPair* pair, object instance)
 {
   PROTECT(t, instance);
 
-  GcField* field = resolveField(t, pair);
+  GcField* field = resolveField(t, pair, false);
   checkNull(t, instance);
   PROTECT(t, field);
 
@@ -2964,7 +2987,7 @@ void setStaticLongFieldValueFromReference(MyThread* t,
                                           GcPair* pair,
                                           uint64_t value)
 {
-  GcField* field = resolveField(t, pair);
+  GcField* field = resolveField(t, pair, true);
   PROTECT(t, field);
 
   initClass(t, field->class_());
@@ -2982,7 +3005,7 @@ void setLongFieldValueFromReference(MyThread* t,
 {
   PROTECT(t, instance);
 
-  GcField* field = resolveField(t, pair);
+  GcField* field = resolveField(t, pair, false);
   checkNull(t, instance);
   PROTECT(t, field);
 
@@ -2997,7 +3020,7 @@ void setStaticObjectFieldValueFromReference(MyThread* t,
 {
   PROTECT(t, value);
 
-  GcField* field = resolveField(t, pair);
+  GcField* field = resolveField(t, pair, true);
   PROTECT(t, field);
 
   initClass(t, field->class_());
@@ -3015,7 +3038,7 @@ void setObjectFieldValueFromReference(MyThread* t,
   PROTECT(t, instance);
   PROTECT(t, value);
 
-  GcField* field = resolveField(t, pair);
+  GcField* field = resolveField(t, pair, false);
   checkNull(t, instance);
   PROTECT(t, field);
 
@@ -3049,7 +3072,7 @@ void setFieldValue(MyThread* t, object target, GcField* field, uint32_t value)
 
 void setStaticFieldValueFromReference(MyThread* t, GcPair* pair, uint32_t value)
 {
-  GcField* field = resolveField(t, pair);
+  GcField* field = resolveField(t, pair, true);
   PROTECT(t, field);
 
   initClass(t, field->class_());
@@ -3065,7 +3088,7 @@ void setFieldValueFromReference(MyThread* t,
                                 uint32_t value)
 {
   PROTECT(t, instance);
-  GcField* field = resolveField(t, pair);
+  GcField* field = resolveField(t, pair, false);
   checkNull(t, instance);
   PROTECT(t, field);
 
@@ -4060,18 +4083,6 @@ uintptr_t aioobThunk(MyThread* t);
 
 uintptr_t stackOverflowThunk(MyThread* t);
 
-void checkField(Thread* t, GcField* field, bool shouldBeStatic)
-{
-  if (((field->flags() & ACC_STATIC) == 0) == shouldBeStatic) {
-    throwNew(t,
-             GcIncompatibleClassChangeError::Type,
-             "expected %s.%s to be %s",
-             field->class_()->name()->body().begin(),
-             field->name()->body().begin(),
-             shouldBeStatic ? "static" : "non-static");
-  }
-}
-
 bool isLambda(Thread* t,
               GcClassLoader* loader,
               GcCharArray* bootstrapArray,
-- 
2.43.0


From 68e316f5d6de380d10fb762e2338b57aadcb6603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 22/31] fix: GetStringUTFChars of an empty string at the end of
 its byte array aborted the virtual machine

---
 src/machine.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index b72ee68..932de57 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4552,7 +4552,9 @@ void stringUTFChars(Thread* t,
           == charsLength);
 
   object data = string->data();
-  if (objectClass(t, data) == type(t, GcByteArray::Type)) {
+  if (length == 0) {
+    chars[0] = 0;
+  } else if (objectClass(t, data) == type(t, GcByteArray::Type)) {
     GcByteArray* b = cast<GcByteArray>(t, data);
     memcpy(chars, &b->body()[string->offset(t) + start], length);
     chars[length] = 0;
-- 
2.43.0


From 17b41af397e8f54a9aaf04116db9fb6a19426fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 23/31] fix: JNI array and string region functions did not
 check their bounds

---
 src/jnienv.cpp | 108 ++++++++++++++++++++++++++++++++++++++++---------
 src/types.def  |   2 +
 2 files changed, 91 insertions(+), 19 deletions(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 82eb3d3..96ea176 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -161,12 +161,54 @@ void JNICALL ReleaseStringChars(Thread* t, jstring s, const jchar* chars)
   t->m->heap->free(chars, ((*s)->length(t) + 1) * sizeof(jchar));
 }
 
+uint64_t throwStringRegionException(Thread* t, uintptr_t* arguments)
+{
+  throwNew(t,
+           GcStringIndexOutOfBoundsException::Type,
+           "region at %d of length %d exceeds string of length %d",
+           static_cast<int>(arguments[1]),
+           static_cast<int>(arguments[2]),
+           static_cast<int>(arguments[0]));
+}
+
+bool checkStringRegion(Thread* t, jstring s, jsize start, jsize length)
+{
+  uintptr_t stringLength = (*s)->length(t);
+
+  if (start >= 0 and length >= 0
+      and static_cast<uint64_t>(start) + length <= stringLength) {
+    return true;
+  } else {
+    uintptr_t arguments[] = {stringLength,
+                             static_cast<uintptr_t>(start),
+                             static_cast<uintptr_t>(length)};
+
+    run(t, throwStringRegionException, arguments);
+
+    return false;
+  }
+}
+
 void JNICALL
     GetStringRegion(Thread* t, jstring s, jsize start, jsize length, jchar* dst)
 {
   ENTER(t, Thread::ActiveState);
 
-  stringChars(t, *s, start, length, dst);
+  if (checkStringRegion(t, s, start, length)) {
+    // the caller's buffer need not have room for a terminating null
+    object data = (*s)->data();
+    if (objectClass(t, data) == type(t, GcByteArray::Type)) {
+      GcByteArray* b = cast<GcByteArray>(t, data);
+      for (jsize i = 0; i < length; ++i) {
+        dst[i] = b->body()[(*s)->offset(t) + start + i];
+      }
+    } else if (length) {
+      GcCharArray* c = cast<GcCharArray>(t, data);
+      memcpy(dst,
+             &c->body()[(*s)->offset(t) + start],
+             length * sizeof(jchar));
+    }
+  }
 }
 
 const jchar* JNICALL GetStringCritical(Thread* t, jstring s, jboolean* isCopy)
@@ -235,8 +277,10 @@ void JNICALL GetStringUTFRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  stringUTFChars(
-      t, *s, start, length, dst, stringUTFLength(t, *s, start, length));
+  if (checkStringRegion(t, s, start, length)) {
+    stringUTFChars(
+        t, *s, start, length, dst, stringUTFLength(t, *s, start, length));
+  }
 }
 
 jsize JNICALL GetArrayLength(Thread* t, jarray array)
@@ -2762,6 +2806,32 @@ void JNICALL ReleaseDoubleArrayElements(Thread* t,
   }
 }
 
+uint64_t throwArrayRegionException(Thread* t, uintptr_t* arguments)
+{
+  throwNew(t,
+           GcArrayIndexOutOfBoundsException::Type,
+           "region at %d of length %d exceeds array of length %d",
+           static_cast<int>(arguments[1]),
+           static_cast<int>(arguments[2]),
+           static_cast<int>(arguments[0]));
+}
+
+bool checkArrayRegion(Thread* t, uintptr_t arrayLength, jint offset, jint length)
+{
+  if (offset >= 0 and length >= 0
+      and static_cast<uint64_t>(offset) + length <= arrayLength) {
+    return true;
+  } else {
+    uintptr_t arguments[] = {arrayLength,
+                             static_cast<uintptr_t>(offset),
+                             static_cast<uintptr_t>(length)};
+
+    run(t, throwArrayRegionException, arguments);
+
+    return false;
+  }
+}
+
 void JNICALL GetBooleanArrayRegion(Thread* t,
                                    jbooleanArray array,
                                    jint offset,
@@ -2770,7 +2840,7 @@ void JNICALL GetBooleanArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jboolean));
   }
 }
@@ -2783,7 +2853,7 @@ void JNICALL GetByteArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jbyte));
   }
 }
@@ -2796,7 +2866,7 @@ void JNICALL GetCharArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jchar));
   }
 }
@@ -2809,7 +2879,7 @@ void JNICALL GetShortArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jshort));
   }
 }
@@ -2822,7 +2892,7 @@ void JNICALL GetIntArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jint));
   }
 }
@@ -2835,7 +2905,7 @@ void JNICALL GetLongArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jlong));
   }
 }
@@ -2848,7 +2918,7 @@ void JNICALL GetFloatArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jfloat));
   }
 }
@@ -2861,7 +2931,7 @@ void JNICALL GetDoubleArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jdouble));
   }
 }
@@ -2874,7 +2944,7 @@ void JNICALL SetBooleanArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jboolean));
   }
 }
@@ -2887,7 +2957,7 @@ void JNICALL SetByteArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jbyte));
   }
 }
@@ -2900,7 +2970,7 @@ void JNICALL SetCharArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jchar));
   }
 }
@@ -2913,7 +2983,7 @@ void JNICALL SetShortArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jshort));
   }
 }
@@ -2926,7 +2996,7 @@ void JNICALL SetIntArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jint));
   }
 }
@@ -2939,7 +3009,7 @@ void JNICALL SetLongArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jlong));
   }
 }
@@ -2952,7 +3022,7 @@ void JNICALL SetFloatArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jfloat));
   }
 }
@@ -2965,7 +3035,7 @@ void JNICALL SetDoubleArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (checkArrayRegion(t, (*array)->length(), offset, length) and length) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jdouble));
   }
 }
diff --git a/src/types.def b/src/types.def
index b17dd1d..ae79e1a 100644
--- a/src/types.def
+++ b/src/types.def
@@ -220,6 +220,8 @@
 
 (type arrayIndexOutOfBoundsException java/lang/ArrayIndexOutOfBoundsException)
 
+(type stringIndexOutOfBoundsException java/lang/StringIndexOutOfBoundsException)
+
 (type arrayStoreException java/lang/ArrayStoreException)
 
 (type negativeArraySizeException java/lang/NegativeArraySizeException)
-- 
2.43.0


From 60170b0b911b9c8adbbdc8a80a70da2204739895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 24/31] fix: JNI Get/SetObjectArrayElement did not check the
 index

---
 src/jnienv.cpp | 73 +++++++++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 96ea176..ec3a079 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -2401,11 +2401,45 @@ jobjectArray JNICALL
   return reinterpret_cast<jobjectArray>(run(t, newObjectArray, arguments));
 }
 
+uint64_t throwArrayRegionException(Thread* t, uintptr_t* arguments)
+{
+  throwNew(t,
+           GcArrayIndexOutOfBoundsException::Type,
+           "region at %d of length %d exceeds array of length %d",
+           static_cast<int>(arguments[1]),
+           static_cast<int>(arguments[2]),
+           static_cast<int>(arguments[0]));
+}
+
+bool checkArrayRegion(Thread* t, uintptr_t arrayLength, jint offset, jint length)
+{
+  if (offset >= 0 and length >= 0
+      and static_cast<uint64_t>(offset) + length <= arrayLength) {
+    return true;
+  } else {
+    uintptr_t arguments[] = {arrayLength,
+                             static_cast<uintptr_t>(offset),
+                             static_cast<uintptr_t>(length)};
+
+    run(t, throwArrayRegionException, arguments);
+
+    return false;
+  }
+}
+
 jobject JNICALL
     GetObjectArrayElement(Thread* t, jobjectArray array, jsize index)
 {
   ENTER(t, Thread::ActiveState);
 
+  if (not checkArrayRegion(
+          t,
+          objectArrayLength(t, reinterpret_cast<object>(*array)),
+          index,
+          1)) {
+    return 0;
+  }
+
   return makeLocalReference(
       t, objectArrayBody(t, reinterpret_cast<object>(*array), index));
 }
@@ -2417,10 +2451,15 @@ void JNICALL SetObjectArrayElement(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  setField(t,
-           reinterpret_cast<object>(*array),
-           ArrayBody + (index * BytesPerWord),
-           (value ? *value : 0));
+  if (checkArrayRegion(t,
+                       objectArrayLength(t, reinterpret_cast<object>(*array)),
+                       index,
+                       1)) {
+    setField(t,
+             reinterpret_cast<object>(*array),
+             ArrayBody + (index * BytesPerWord),
+             (value ? *value : 0));
+  }
 }
 
 uint64_t newArray(Thread* t, uintptr_t* arguments)
@@ -2806,32 +2845,6 @@ void JNICALL ReleaseDoubleArrayElements(Thread* t,
   }
 }
 
-uint64_t throwArrayRegionException(Thread* t, uintptr_t* arguments)
-{
-  throwNew(t,
-           GcArrayIndexOutOfBoundsException::Type,
-           "region at %d of length %d exceeds array of length %d",
-           static_cast<int>(arguments[1]),
-           static_cast<int>(arguments[2]),
-           static_cast<int>(arguments[0]));
-}
-
-bool checkArrayRegion(Thread* t, uintptr_t arrayLength, jint offset, jint length)
-{
-  if (offset >= 0 and length >= 0
-      and static_cast<uint64_t>(offset) + length <= arrayLength) {
-    return true;
-  } else {
-    uintptr_t arguments[] = {arrayLength,
-                             static_cast<uintptr_t>(offset),
-                             static_cast<uintptr_t>(length)};
-
-    run(t, throwArrayRegionException, arguments);
-
-    return false;
-  }
-}
-
 void JNICALL GetBooleanArrayRegion(Thread* t,
                                    jbooleanArray array,
                                    jint offset,
-- 
2.43.0


From 07667421ccfad1fd2ffce3d0e497eb133a9e20ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 25/31] fix: GetStringCritical of an empty string at the end of
 its char array aborted the virtual machine

---
 src/jnienv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index ec3a079..8252134 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -227,7 +227,7 @@ const jchar* JNICALL GetStringCritical(Thread* t, jstring s, jboolean* isCopy)
   if (objectClass(t, data) == type(t, GcByteArray::Type)) {
     return GetStringChars(t, s, isCopy);
   } else {
-    return &cast<GcCharArray>(t, data)->body()[(*s)->offset(t)];
+    return cast<GcCharArray>(t, data)->body().begin() + (*s)->offset(t);
   }
 }
 
-- 
2.43.0


From 6b6288311261f9d105ee203dbc60215b23e92fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 26/31] fix: System.arraycopy accepted ranges whose end
 overflows and ignored bad offsets of empty ranges

---
 src/avian/classpath-common.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/avian/classpath-common.h b/src/avian/classpath-common.h
index 78328ca..7c34e83 100644
--- a/src/avian/classpath-common.h
+++ b/src/avian/classpath-common.h
@@ -80,9 +80,11 @@ void arrayCopy(Thread* t,
       if (LIKELY(elementSize)) {
         intptr_t sl = fieldAtOffset<uintptr_t>(src, BytesPerWord);
         intptr_t dl = fieldAtOffset<uintptr_t>(dst, BytesPerWord);
-        if (LIKELY(length > 0)) {
-          if (LIKELY(srcOffset >= 0 and srcOffset + length > srcOffset and srcOffset + length <= sl
-                     and dstOffset >= 0 and dstOffset + length > dstOffset and dstOffset + length <= dl)) {
+        if (LIKELY(length >= 0)) {
+          if (LIKELY(srcOffset >= 0
+                     and static_cast<int64_t>(srcOffset) + length <= sl
+                     and dstOffset >= 0
+                     and static_cast<int64_t>(dstOffset) + length <= dl)) {
             uint8_t* sbody = &fieldAtOffset<uint8_t>(src, ArrayBody);
             uint8_t* dbody = &fieldAtOffset<uint8_t>(dst, ArrayBody);
             if (src == dst) {
@@ -95,7 +97,7 @@ void arrayCopy(Thread* t,
                      length * elementSize);
             }
 
-            if (objectClass(t, dst)->objectMask()) {
+            if (length and objectClass(t, dst)->objectMask()) {
               mark(t, dst, ArrayBody + (dstOffset * BytesPerWord), length);
             }
 
@@ -103,10 +105,8 @@ void arrayCopy(Thread* t,
           } else {
             throwNew(t, GcIndexOutOfBoundsException::Type);
           }
-        } else if (LIKELY(length < 0)) {
-          throwNew(t, GcIndexOutOfBoundsException::Type, "%d", length);
-          return;
         } else {
+          throwNew(t, GcIndexOutOfBoundsException::Type, "%d", length);
           return;
         }
       }
-- 
2.43.0


From 7e8422a19f37ab3e7cdf93f3d89c42260bb6dbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 27/31] fix: System.arraycopy between primitive arrays of
 different types corrupted memory instead of raising ArrayStoreException

---
 src/avian/classpath-common.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/avian/classpath-common.h b/src/avian/classpath-common.h
index 7c34e83..3bb49b2 100644
--- a/src/avian/classpath-common.h
+++ b/src/avian/classpath-common.h
@@ -61,8 +61,7 @@ object getTrace(Thread* t, unsigned skipCount)
 bool compatibleArrayTypes(Thread* t UNUSED, GcClass* a, GcClass* b)
 {
   return a->arrayElementSize() and b->arrayElementSize()
-         and (a == b or (not((a->vmFlags() & PrimitiveFlag)
-                             or (b->vmFlags() & PrimitiveFlag))));
+         and (a == b or (a->objectMask() and b->objectMask()));
 }
 
 void arrayCopy(Thread* t,
-- 
2.43.0


From 263d504888a4d60a2d57e9d35830a1ba6df1eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 28/31] fix: references to constants outside the constant pool
 were followed (memory outside the class file read)

---
 src/machine.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/machine.cpp b/src/machine.cpp
index 932de57..e4d5e2e 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -883,6 +883,9 @@ unsigned parsePoolEntry(Thread* t,
   PROTECT(t, pool);
   PROTECT(t, invocations);
 
+  // a malformed class file may refer to constants outside the pool
+  expect(t, i < poolSize(t, pool));
+
   s.setPosition(index[i]);
 
   switch (s.read1()) {
@@ -1107,6 +1110,8 @@ GcSingleton* parsePool(Thread* t, Stream& s, GcList* invocations)
   PROTECT(t, invocations);
 
   unsigned count = s.read2() - 1;
+  expect(t, count < 0xFFFF);
+
   GcSingleton* pool = makeSingletonOfSize(t, count + poolMaskSize(count));
   PROTECT(t, pool);
 
@@ -1124,6 +1129,9 @@ GcSingleton* parsePool(Thread* t, Stream& s, GcList* invocations)
                      count,
                      t->m->heap->free(index, count * 4));
 
+    // the second slot of a long or double is not a constant
+    memset(index, 0, count * 4);
+
     for (unsigned i = 0; i < count; ++i) {
       index[i] = s.position();
 
@@ -1157,6 +1165,7 @@ GcSingleton* parsePool(Thread* t, Stream& s, GcList* invocations)
         break;
 
       case CONSTANT_Double:
+        expect(t, i + 1 < count);
         singletonSetBit(t, pool, count, i);
         singletonSetBit(t, pool, count, i + 1);
         s.skip(8);
-- 
2.43.0


From 80c38a12b56017221a662b2c0b1d95b0ef0bf1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 29/31] fix: the interpreter took double arguments of JNI calls
 from the integer registers

---
 src/interpret.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index be7daad..96cd08e 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3076,10 +3076,13 @@ void pushArguments(Thread* t,
       break;
 
     case 'J':
-    case 'D':
       pushLong(t, va_arg(a, uint64_t));
       break;
 
+    case 'D':
+      pushDouble(t, va_arg(a, double));
+      break;
+
     case 'F': {
       pushFloat(t, va_arg(a, double));
     } break;
-- 
2.43.0


From 8eae95f7767a8c7b4ab606af678dd8f9220ef95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 30/31] fix: JNI calls with an argument array read 32 bits of
 boolean, byte, char and short arguments

---
 src/compile.cpp   | 16 ++++++++++++++++
 src/interpret.cpp | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 91786c9..ceb3b84 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -8500,6 +8500,22 @@ class ArgumentList {
         addInt(floatToBits(arguments[index++].f));
         break;
 
+      case 'Z':
+        addInt(arguments[index++].z);
+        break;
+
+      case 'B':
+        addInt(arguments[index++].b);
+        break;
+
+      case 'C':
+        addInt(arguments[index++].c);
+        break;
+
+      case 'S':
+        addInt(arguments[index++].s);
+        break;
+
       default:
         addInt(arguments[index++].i);
         break;
diff --git a/src/interpret.cpp b/src/interpret.cpp
index 96cd08e..8517886 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3121,6 +3121,22 @@ void pushArguments(Thread* t,
       pushFloat(t, arguments[index++].f);
     } break;
 
+    case 'Z':
+      pushInt(t, arguments[index++].z);
+      break;
+
+    case 'B':
+      pushInt(t, arguments[index++].b);
+      break;
+
+    case 'C':
+      pushInt(t, arguments[index++].c);
+      break;
+
+    case 'S':
+      pushInt(t, arguments[index++].s);
+      break;
+
     default:
       pushInt(t, arguments[index++].i);
       break;
-- 
2.43.0


From 0fe6ef858e553c766bdd3c616a129ac8f2978def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 31/31] fix: negative byte and short arguments of reflective
 calls arrived as positive numbers

---
 src/compile.cpp   | 16 ++++++++++++++++
 src/interpret.cpp | 19 +++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index ceb3b84..8ea8674 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -8555,6 +8555,22 @@ class ArgumentList {
             fieldAtOffset<int64_t>(objectArrayBody(t, arguments, index++), 8));
         break;
 
+      case 'Z':
+      case 'B':
+        addInt(fieldAtOffset<int8_t>(objectArrayBody(t, arguments, index++),
+                                     BytesPerWord));
+        break;
+
+      case 'C':
+        addInt(fieldAtOffset<uint16_t>(objectArrayBody(t, arguments, index++),
+                                       BytesPerWord));
+        break;
+
+      case 'S':
+        addInt(fieldAtOffset<int16_t>(objectArrayBody(t, arguments, index++),
+                                      BytesPerWord));
+        break;
+
       default:
         addInt(fieldAtOffset<int32_t>(objectArrayBody(t, arguments, index++),
                                       BytesPerWord));
diff --git a/src/interpret.cpp b/src/interpret.cpp
index 8517886..77d0766 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3163,6 +3163,25 @@ void pushArguments(Thread* t, object this_, const char* spec, object a)
       pushLong(t, fieldAtOffset<int64_t>(objectArrayBody(t, a, index++), 8));
       break;
 
+    case 'Z':
+    case 'B':
+      pushInt(
+          t,
+          fieldAtOffset<int8_t>(objectArrayBody(t, a, index++), BytesPerWord));
+      break;
+
+    case 'C':
+      pushInt(
+          t,
+          fieldAtOffset<uint16_t>(objectArrayBody(t, a, index++), BytesPerWord));
+      break;
+
+    case 'S':
+      pushInt(
+          t,
+          fieldAtOffset<int16_t>(objectArrayBody(t, a, index++), BytesPerWord));
+      break;
+
     default:
       pushInt(
           t,
-- 
2.43.0

