From 312b4850d9786c74a7d8734a041a59206d632479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 1/6] fix: reject truncated codes and undefined types instead
 of reading outside the given bytes

---
 src/expr/codec.cc           | 54 +++++++++++++++++++++++--------------
 src/expr/codec.h            | 33 ++++++++++++++---------
 src/expr/operator_vector.cc | 37 ++++++++++++++-----------
 src/rel/rel_runner.cc       | 53 ++++++++++++++++++------------------
 src/rel/rel_runner.h        |  8 +++---
 5 files changed, 106 insertions(+), 79 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 014bb00..acbcf21 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -24,67 +24,81 @@
 
 namespace dingodb::expr {
 
+static inline void RequireBytes(const Byte *data, const Byte *end, size_t len) {
+  if ((size_t)(end - data) < len) {
+    throw MoreElementsRequired(len, end - data);
+  }
+}
+
 template <typename T>
-static const Byte *DecodeVarint(T &value, const Byte *data) {
+static const Byte *DecodeVarint(T &value, const Byte *data, const Byte *end) {
   value = 0;
   const Byte *p;
   int shift = 0;
-  for (p = data; ((*p) & 0x80) != 0; ++p) {
-    value |= ((T)(*p & 0x7F) << shift);
+  for (p = data; p < end && ((*p) & 0x80) != 0; ++p) {
+    if (shift < 8 * (int)sizeof(T)) {
+      value |= ((T)(*p & 0x7F) << shift);
+    }
     shift += 7;
   }
-  value |= ((T)(*p) << shift);
+  RequireBytes(p, end, 1);
+  if (shift < 8 * (int)sizeof(T)) {
+    value |= ((T)(*p) << shift);
+  }
   return p + 1;
 }
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data) {
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end) {
+  RequireBytes(data, end, 4);
   uint32_t l = be32toh(*(uint32_t *)data);
   value = *(float *)&l;
   return data + 4;
 }
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data) {
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end) {
+  RequireBytes(data, end, 8);
   uint64_t l = be64toh(*(uint64_t *)data);
   value = *(double *)&l;
   return data + 8;
 }
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data) {
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end) {
   uint32_t len;
-  const Byte *p = DecodeValue(len, data);
+  const Byte *p = DecodeValue(len, data, end);
+  RequireBytes(p, end, len);
   value = String(reinterpret_cast<const char *>(p), len);
   return p + len;
 }
diff --git a/src/expr/codec.h b/src/expr/codec.h
index d33bad7..09a8cfa 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -29,44 +29,45 @@ namespace dingodb::expr {
  * @tparam T type of the value
  * @param value reference to the value
  * @param data code buffer
+ * @param end end of the code buffer
  * @return const Byte* point to the next byte of the bytes used
  */
 template <typename T>
-const Byte *DecodeValue(T &value, const Byte *data);
+const Byte *DecodeValue(T &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data);
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data);
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data);
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end);
 
 template <typename T>
 const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t len) {
   const Byte *p = code;
   int i;
   for (i = 0; i < count && p < code + len; ++i) {
-    p = DecodeValue(container[i], p);
+    p = DecodeValue(container[i], p, code + len);
   }
   if (i < count) {
     throw MoreElementsRequired(count, i);
@@ -77,7 +78,10 @@ const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t
 template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
+  if (count > (size_t)(code + len - p)) {
+    throw MoreElementsRequired(count, code + len - p);
+  }
   arr = new T[count];
   return DecodeElements(arr, count, p, code + len - p);
 }
@@ -86,7 +90,10 @@ template <typename T>
 const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
+  if (count > (size_t)(code + len - p)) {
+    throw MoreElementsRequired(count, code + len - p);
+  }
   vec = new std::vector<T>(count);
   return DecodeElements(*vec, count, p, code + len - p);
 }
diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index d369f69..0ad052b 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -95,6 +95,11 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
   const Byte *b;
   while (successful && p < code + len) {
     b = p;
+    if (*p >= POS && p + 1 == code + len) {
+      // All these codes are followed by another byte.
+      successful = false;
+      break;
+    }
     switch (*p) {
     case NULL_INT32:
       ++p;
@@ -123,14 +128,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT32>(v));
       break;
     }
     case CONST_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT64>(v));
       break;
     }
@@ -141,14 +146,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_FLOAT: {
       ++p;
       float v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_FLOAT>(v));
       break;
     }
     case CONST_DOUBLE: {
       ++p;
       double v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_DOUBLE>(v));
       break;
     }
@@ -160,21 +165,21 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_STRING: {
       ++p;
       String v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_STRING>(v));
       break;
     }
     case CONST_N_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT32>(-v));
       break;
     }
     case CONST_N_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT64>(-v));
       break;
     }
@@ -185,49 +190,49 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case VAR_I_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_INT32>(v));
       break;
     }
     case VAR_I_INT64: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_INT64>(v));
       break;
     }
     case VAR_I_BOOL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_BOOL>(v));
       break;
     }
     case VAR_I_FLOAT: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_FLOAT>(v));
       break;
     }
     case VAR_I_DOUBLE: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_DOUBLE>(v));
       break;
     }
     case VAR_I_DECIMAL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_DECIMAL>(v));
       break;
     }
     case VAR_I_STRING: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_STRING>(v));
       break;
     }
@@ -374,7 +379,7 @@ eoe:
 }
 
 bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
-  const auto *op = ops[type];
+  const auto *op = (type < TYPE_NUM ? ops[type] : nullptr);
   if (op != nullptr) {
     Add(op);
     return true;
@@ -388,7 +393,7 @@ bool OperatorVector::AddCastOperator(const Operator *const ops[][TYPE_NUM], Byte
   if (dst == src) {
     return true;
   }
-  const auto *op = ops[dst][src];
+  const auto *op = (dst < TYPE_NUM && src < TYPE_NUM ? ops[dst][src] : nullptr);
   if (op != nullptr) {
     Add(op);
     return true;
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 96bfe85..7054688 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,8 +14,6 @@
 
 #include "rel_runner.h"
 
-#include <cassert>
-
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -71,7 +69,10 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     }
     case GROUPED_AGGREGATE: {
       ++p;
-      assert(*p == ARRAY_INT32);
+      if (p == code + len || *p != ARRAY_INT32) {
+        successful = false;
+        break;
+      }
       ++p;
       int32_t *groupe_indices;
       size_t count;
@@ -120,7 +121,7 @@ void RelRunner::AppendOp(RelOp *op) {
 namespace dingodb::expr {
 
 template <>
-const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data) {
+const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data, const Byte *end) {
   const expr::Byte *p = data;
   ++p;
   agg = new rel::op::CountAllAgg();
@@ -128,71 +129,71 @@ const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte
 }
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data) {
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end) {
   const Byte *p = data;
   switch (*p) {
   case rel::AGG_COUNT_ALL:
-    p = DecodeAgg<rel::op::CountAllAgg>(value, p);
+    p = DecodeAgg<rel::op::CountAllAgg>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_INT32:
-    p = DecodeAgg<rel::op::CountAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_INT64:
-    p = DecodeAgg<rel::op::CountAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_BOOL:
-    p = DecodeAgg<rel::op::CountAgg<bool>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<bool>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::CountAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<float>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::CountAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<double>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_STRING:
-    p = DecodeAgg<rel::op::CountAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<expr::String>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_INT32:
-    p = DecodeAgg<rel::op::SumAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_INT64:
-    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::SumAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<float>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::SumAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<double>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_INT32:
-    p = DecodeAgg<rel::op::MaxAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_INT64:
-    p = DecodeAgg<rel::op::MaxAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::MaxAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<float>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::MaxAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<double>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_STRING:
-    p = DecodeAgg<rel::op::MaxAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<expr::String>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_INT32:
-    p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_INT64:
-    p = DecodeAgg<rel::op::MinAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::MinAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<float>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::MinAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<double>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_STRING:
-    p = DecodeAgg<rel::op::MinAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<expr::String>>(value, p, end);
     break;
   default:
     throw ExprError("Unknown aggregation type: " + HexOfBytes(data, 1));
diff --git a/src/rel/rel_runner.h b/src/rel/rel_runner.h
index a505af9..aade21a 100644
--- a/src/rel/rel_runner.h
+++ b/src/rel/rel_runner.h
@@ -49,20 +49,20 @@ class RelRunner {
 namespace dingodb::expr {
 
 template <class AGG>
-const Byte *DecodeAgg(const rel::op::Agg *&agg, const Byte *data) {
+const Byte *DecodeAgg(const rel::op::Agg *&agg, const Byte *data, const Byte *end) {
   const Byte *p = data;
   ++p;
   int32_t index;
-  p = DecodeValue(index, p);
+  p = DecodeValue(index, p, end);
   agg = new AGG(index);
   return p;
 }
 
 template <>
-const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data);
+const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data);
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end);
 
 }  // namespace dingodb::expr
 
-- 
2.43.0


From a4c76e1486ee1ff5be1c4208b890367eff5b13ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 2/6] fix: release what was decoded when a decode fails
 half-way

---
 src/expr/codec.h           | 11 ++++++-----
 src/expr/operator_vector.h |  5 ++++-
 src/expr/utils.cc          |  7 ++-----
 src/rel/rel_runner.cc      | 36 +++++++++++++++++++++++++-----------
 4 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/expr/codec.h b/src/expr/codec.h
index 09a8cfa..a90819d 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -16,6 +16,7 @@
 #define _EXPR_CODEC_H_
 
 #include <cstddef>
+#include <memory>
 #include <vector>
 
 #include "exception.h"
@@ -76,25 +77,25 @@ const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t
 }
 
 template <typename T>
-const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
+const Byte *DecodeArray(std::unique_ptr<T[]> &arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
   p = DecodeValue(count, p, code + len);
   if (count > (size_t)(code + len - p)) {
     throw MoreElementsRequired(count, code + len - p);
   }
-  arr = new T[count];
+  arr.reset(new T[count]);
   return DecodeElements(arr, count, p, code + len - p);
 }
 
-template <typename T>
-const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
+template <typename T, typename Deleter>
+const Byte *DecodeVector(std::unique_ptr<std::vector<T>, Deleter> &vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
   p = DecodeValue(count, p, code + len);
   if (count > (size_t)(code + len - p)) {
     throw MoreElementsRequired(count, code + len - p);
   }
-  vec = new std::vector<T>(count);
+  vec.reset(new std::vector<T>(count));
   return DecodeElements(*vec, count, p, code + len - p);
 }
 
diff --git a/src/expr/operator_vector.h b/src/expr/operator_vector.h
index 382df2c..4c06b43 100644
--- a/src/expr/operator_vector.h
+++ b/src/expr/operator_vector.h
@@ -15,6 +15,7 @@
 #ifndef _EXPR_OPERATOR_VECTOR_H_
 #define _EXPR_OPERATOR_VECTOR_H_
 
+#include <memory>
 #include <vector>
 
 #include "operator.h"
@@ -54,8 +55,10 @@ class OperatorVector {
   }
 
   void AddRelease(const Operator *op) {
-    m_vector.push_back(op);
+    std::unique_ptr<const Operator> owner(op);
     m_to_release.push_back(op);
+    owner.release();
+    m_vector.push_back(op);
   }
 
   void Release() {
diff --git a/src/expr/utils.cc b/src/expr/utils.cc
index ae2ab09..ca3088c 100644
--- a/src/expr/utils.cc
+++ b/src/expr/utils.cc
@@ -53,11 +53,8 @@ void BytesToHex(char *hex, const Byte *buf, size_t len) {
 }
 
 std::string HexOfBytes(const Byte *data, size_t len) {
-  char *buf = new char[len * 2 + 1];
-  BytesToHex(buf, data, len);
-  buf[len * 2] = '\0';
-  std::string result(buf);
-  delete[] buf;
+  std::string result(len * 2, '\0');
+  BytesToHex(result.data(), data, len);
   return result;
 }
 
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 7054688..3d7ec18 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,6 +14,8 @@
 
 #include "rel_runner.h"
 
+#include <memory>
+
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -38,6 +40,17 @@ static const expr::Byte AGG_SUM = 0x20;
 static const expr::Byte AGG_MAX = 0x30;
 static const expr::Byte AGG_MIN = 0x40;
 
+struct AggsDeleter {
+  void operator()(const std::vector<const op::Agg *> *aggs) const {
+    for (const auto *agg : *aggs) {
+      delete agg;
+    }
+    delete aggs;
+  }
+};
+
+using AggsPtr = std::unique_ptr<std::vector<const op::Agg *>, AggsDeleter>;
+
 RelRunner::RelRunner() : m_op(nullptr) {
 }
 
@@ -55,16 +68,16 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     switch (*p) {
     case FILTER_OP: {
       ++p;
-      auto *filter = new expr::Runner();
+      auto filter = std::make_unique<expr::Runner>();
       p = filter->Decode(p, code + len - p);
-      AppendOp(new op::FilterOp(filter));
+      AppendOp(new op::FilterOp(filter.release()));
       break;
     }
     case PROJECT_OP: {
       ++p;
-      auto *projects = new expr::Runner();
+      auto projects = std::make_unique<expr::Runner>();
       p = projects->Decode(p, code + len - p);
-      AppendOp(new op::ProjectOp(projects));
+      AppendOp(new op::ProjectOp(projects.release()));
       break;
     }
     case GROUPED_AGGREGATE: {
@@ -74,19 +87,19 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
         break;
       }
       ++p;
-      int32_t *groupe_indices;
+      std::unique_ptr<int32_t[]> groupe_indices;
       size_t count;
       p = expr::DecodeArray(groupe_indices, count, p, code + len - p);
-      std::vector<const op::Agg *> *aggs;
+      AggsPtr aggs;
       p = expr::DecodeVector(aggs, p, code + len - p);
-      AppendOp(new op::GroupedAggOp(groupe_indices, count, aggs));
+      AppendOp(new op::GroupedAggOp(groupe_indices.release(), count, aggs.release()));
       break;
     }
     case UNGROUPED_AGGREGATE: {
       ++p;
-      std::vector<const op::Agg *> *aggs;
+      AggsPtr aggs;
       p = expr::DecodeVector(aggs, p, code + len - p);
-      AppendOp(new op::UngroupedAggOp(aggs));
+      AppendOp(new op::UngroupedAggOp(aggs.release()));
       break;
     }
     default:
@@ -109,10 +122,11 @@ const expr::Tuple *RelRunner::Get() const {
 }
 
 void RelRunner::AppendOp(RelOp *op) {
+  std::unique_ptr<RelOp> owner(op);
   if (m_op != nullptr) {
-    m_op = new op::TandemOp(m_op, op);
+    m_op = new op::TandemOp(m_op, owner.release());
   } else {
-    m_op = op;
+    m_op = owner.release();
   }
 }
 
-- 
2.43.0


From ab316c557184e422a6b6cae53646fa93befd9337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 3/6] fix: a tuple which fails to evaluate is released and has
 no partial effect

---
 src/expr/runner.cc           |  5 +++--
 src/expr/utils.cc            | 10 ++++++----
 src/rel/op/agg_op.cc         | 13 ++++++++-----
 src/rel/op/filter_op.cc      |  6 ++++--
 src/rel/op/grouped_agg_op.cc | 17 +++++++++++++----
 src/rel/op/project_op.cc     |  4 +++-
 6 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/expr/runner.cc b/src/expr/runner.cc
index 0d841e4..8f21d2d 100644
--- a/src/expr/runner.cc
+++ b/src/expr/runner.cc
@@ -15,6 +15,7 @@
 #include "runner.h"
 
 #include <algorithm>
+#include <memory>
 
 namespace dingodb::expr {
 
@@ -26,9 +27,9 @@ void Runner::Run() const {
 }
 
 Tuple *Runner::GetAll() const {
-  auto *tuple = new Tuple();
+  auto tuple = std::make_unique<Tuple>();
   std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));
-  return tuple;
+  return tuple.release();
 }
 
 }  // namespace dingodb::expr
diff --git a/src/expr/utils.cc b/src/expr/utils.cc
index ca3088c..47e862e 100644
--- a/src/expr/utils.cc
+++ b/src/expr/utils.cc
@@ -14,6 +14,8 @@
 
 #include "utils.h"
 
+#include <memory>
+
 namespace dingodb::expr {
 
 int HexToNibble(const char hex) {
@@ -59,18 +61,18 @@ std::string HexOfBytes(const Byte *data, size_t len) {
 }
 
 Tuple *ConcatTuple(const Tuple &t1, const Tuple &t2) {
-  auto *tuple = new Tuple(t1.size() + t2.size());
+  auto tuple = std::make_unique<Tuple>(t1.size() + t2.size());
   auto i = std::copy(t1.cbegin(), t1.cend(), tuple->begin());
   std::copy(t2.cbegin(), t2.cend(), i);
-  return tuple;
+  return tuple.release();
 }
 
 Tuple *MapTuple(const Tuple &src, const int *index, size_t index_size) {
-  auto *tuple = new Tuple(index_size);
+  auto tuple = std::make_unique<Tuple>(index_size);
   for (int i = 0; i < index_size; ++i) {
     (*tuple)[i] = src[index[i]];
   }
-  return tuple;
+  return tuple.release();
 }
 
 }  // namespace dingodb::expr
diff --git a/src/rel/op/agg_op.cc b/src/rel/op/agg_op.cc
index 3e827d9..753f6a4 100644
--- a/src/rel/op/agg_op.cc
+++ b/src/rel/op/agg_op.cc
@@ -12,6 +12,8 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <memory>
+
 #include "ungrouped_agg_op.h"
 
 namespace dingodb::rel::op {
@@ -27,13 +29,14 @@ AggOp::~AggOp() {
 }
 
 void AggOp::AddToCache(expr::Tuple *&cache, const expr::Tuple *tuple) const {
-  if (cache == nullptr) {
-    cache = new expr::Tuple(m_aggs->size());
-  }
+  std::unique_ptr<const expr::Tuple> owner(tuple);
+  // Work on a copy, so a tuple counts either in all the aggregates or in none of them.
+  auto result = (cache != nullptr ? std::make_unique<expr::Tuple>(*cache) : std::make_unique<expr::Tuple>(m_aggs->size()));
   for (int i = 0; i < m_aggs->size(); ++i) {
-    (*cache)[i] = (*m_aggs)[i]->Add((*cache)[i], tuple);
+    (*result)[i] = (*m_aggs)[i]->Add((*result)[i], tuple);
   }
-  delete tuple;
+  delete cache;
+  cache = result.release();
 }
 
 }  // namespace dingodb::rel::op
diff --git a/src/rel/op/filter_op.cc b/src/rel/op/filter_op.cc
index 488a978..795e914 100644
--- a/src/rel/op/filter_op.cc
+++ b/src/rel/op/filter_op.cc
@@ -14,6 +14,8 @@
 
 #include "filter_op.h"
 
+#include <memory>
+
 #include "../../expr/calc/special.h"
 #include "../../expr/runner.h"
 
@@ -27,13 +29,13 @@ FilterOp::~FilterOp() {
 }
 
 const expr::Tuple *FilterOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> owner(tuple);
   m_filter->BindTuple(tuple);
   m_filter->Run();
   auto v = m_filter->Get();
   if (expr::calc::IsTrue<bool>(v)) {
-    return tuple;
+    return owner.release();
   }
-  delete tuple;
   return nullptr;
 }
 
diff --git a/src/rel/op/grouped_agg_op.cc b/src/rel/op/grouped_agg_op.cc
index 47716de..715bbbe 100644
--- a/src/rel/op/grouped_agg_op.cc
+++ b/src/rel/op/grouped_agg_op.cc
@@ -14,6 +14,8 @@
 
 #include "grouped_agg_op.h"
 
+#include <memory>
+
 #include "../../expr/utils.h"
 
 namespace dingodb::rel::op {
@@ -32,10 +34,17 @@ GroupedAggOp::~GroupedAggOp() {
 }
 
 const expr::Tuple *GroupedAggOp::Put(const expr::Tuple *tuple) const {
-  auto *key = expr::MapTuple(*tuple, m_group_indices, m_groupe_indices_size);
-  auto *&cache = m_caches[*key];
-  delete key;
-  AddToCache(cache, tuple);
+  std::unique_ptr<const expr::Tuple> owner(tuple);
+  std::unique_ptr<expr::Tuple> key(expr::MapTuple(*tuple, m_group_indices, m_groupe_indices_size));
+  auto r = m_caches.emplace(*key, nullptr);
+  try {
+    AddToCache(r.first->second, owner.release());
+  } catch (...) {
+    if (r.second) {
+      m_caches.erase(r.first);
+    }
+    throw;
+  }
   return nullptr;
 }
 
diff --git a/src/rel/op/project_op.cc b/src/rel/op/project_op.cc
index ba9f33e..10d1b26 100644
--- a/src/rel/op/project_op.cc
+++ b/src/rel/op/project_op.cc
@@ -14,6 +14,8 @@
 
 #include "project_op.h"
 
+#include <memory>
+
 #include "../../expr/runner.h"
 
 namespace dingodb::rel::op {
@@ -26,9 +28,9 @@ ProjectOp::~ProjectOp() {
 }
 
 const expr::Tuple *ProjectOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> owner(tuple);
   m_projects->BindTuple(tuple);
   m_projects->Run();
-  delete tuple;
   return m_projects->GetAll();
 }
 
-- 
2.43.0


From 83f3c06195ebb2f8ef1b1982ea4f425835048a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 4/6] fix: casting to string reports running out of memory

---
 src/expr/calc/casting.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/expr/calc/casting.cc b/src/expr/calc/casting.cc
index 1dd94ca..5c8b30a 100644
--- a/src/expr/calc/casting.cc
+++ b/src/expr/calc/casting.cc
@@ -98,6 +98,7 @@ static String CastF(T v) {
   // precision is 6 by default
   // auto s = std::to_string(v);
   std::stringstream ss;
+  ss.exceptions(std::ios::badbit);  // or running out of memory gives a truncated string
   ss << std::fixed << std::setprecision(15) << v;
   auto s = ss.str();
   s.erase(s.find_last_not_of('0') + 1);
-- 
2.43.0


From b63927a787632e745cf49f14e25f74f468e79fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 5/6] fix: dividing the minimum by -1 does not trap

---
 src/expr/calc/arithmetic.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/expr/calc/arithmetic.h b/src/expr/calc/arithmetic.h
index 5d26385..eeecaf3 100644
--- a/src/expr/calc/arithmetic.h
+++ b/src/expr/calc/arithmetic.h
@@ -15,6 +15,8 @@
 #ifndef _EXPR_CALC_ARITHMETIC_H_
 #define _EXPR_CALC_ARITHMETIC_H_
 
+#include <type_traits>
+
 #include "../operand.h"
 
 namespace dingodb::expr::calc {
@@ -47,6 +49,11 @@ T Mul(T v0, T v1) {
 template <typename T>
 Operand Div(T v0, T v1) {
   if (v1 != 0) {
+    if constexpr (std::is_integral_v<T>) {
+      if (v1 == -1) {
+        return (T)(0 - (std::make_unsigned_t<T>)v0);  // the minimum divided by -1 does not fit and traps
+      }
+    }
     return v0 / v1;
   }
   return nullptr;
@@ -55,6 +62,9 @@ Operand Div(T v0, T v1) {
 template <typename T>
 Operand Mod(T v0, T v1) {
   if (v1 != 0) {
+    if (v1 == -1) {
+      return (T)0;  // the minimum divided by -1 traps
+    }
     return v0 % v1;
   }
   return nullptr;
-- 
2.43.0


From 1e3e7434f60a90d3f6e23c473f072e8131ce5bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 6/6] fix: casting FLOAT and DOUBLE to STRING does not depend
 on the global locale

---
 src/expr/calc/casting.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr/calc/casting.cc b/src/expr/calc/casting.cc
index 5c8b30a..fd5cf6b 100644
--- a/src/expr/calc/casting.cc
+++ b/src/expr/calc/casting.cc
@@ -16,6 +16,7 @@
 
 #include <cmath>
 #include <iomanip>
+#include <locale>
 #include <sstream>
 
 #include "../exception.h"
@@ -99,6 +100,7 @@ static String CastF(T v) {
   // auto s = std::to_string(v);
   std::stringstream ss;
   ss.exceptions(std::ios::badbit);  // or running out of memory gives a truncated string
+  ss.imbue(std::locale::classic());  // the global locale may be any
   ss << std::fixed << std::setprecision(15) << v;
   auto s = ss.str();
   s.erase(s.find_last_not_of('0') + 1);
-- 
2.43.0

