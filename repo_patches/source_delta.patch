From 3554d4c7c47441b4f6ace5f068cf3ab5daefe995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 01/15] fix: GenBitmap must not write past the result when the
 length is a multiple of 8

---
 src/function/list_comparison.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index e7b2912..4dcfbf5 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -289,6 +289,9 @@ U8ListStruct GenBitmap(ListType a, typename ListType::CElementType b, void *exec
     }
     result.data[(i / 8)] = mask_bit;
   }
+  if (i == a.len) {
+    return result;
+  }
   auto last_index = (vec_loop_len / 8);
   result.data[last_index] = 0;
   for (int j = 0; i + j < a.len; j++) {
@@ -349,6 +352,9 @@ U8ListStruct GenBitmapList(ListType a, ListType b, void *exec_context) {
     }
     result.data[(i / 8)] = mask_bit;
   }
+  if (i == len) {
+    return result;
+  }
   auto last_index = (vec_loop_len / 8);
   result.data[last_index] = 0;
   for (int j = 0; i + j < len; j++) {
-- 
2.43.0


From e1a09f1e71f64b77dd81b930d6ca6ca09272ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 02/15] fix: FilterByBitmap must not write past its block when
 bits_cnt is too small

---
 src/function/list_comparison.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index 4dcfbf5..2ef4ac8 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -386,7 +386,7 @@ ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void
     return {nullptr, 0};
   }
   ListType result;
-  result.data = reinterpret_cast<T *>(exec_ctx->arena.Allocate((bits_cnt + 1) * sizeof(T)));
+  result.data = reinterpret_cast<T *>(exec_ctx->arena.Allocate((static_cast<size_t>(bits_cnt) + 1) * sizeof(T)));
   result.len = bits_cnt;
 
   uint32_t cur = 0;
@@ -396,6 +396,11 @@ ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void
     if (mask == 0) {
       continue;
     }
+    // The block holds bits_cnt elements and one scratch slot: stop before the kept elements exceed it.
+    if (static_cast<uint32_t>(__builtin_popcount(mask)) > bits_cnt - cur) {
+      exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to bits_cnt");
+      return {nullptr, 0};
+    }
     if (mask == 0xFFU) {
       std::memcpy(result.data + cur, a.data + (i * 8), 8 * sizeof(T));
       cur += 8;
@@ -417,6 +422,10 @@ ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void
       exec_ctx->AddError("FilterByBitmap: bitmap len is too long");
       return {nullptr, 0};
     }
+    if (static_cast<uint32_t>(__builtin_popcount(mask)) > bits_cnt - cur) {
+      exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to bits_cnt");
+      return {nullptr, 0};
+    }
     const T *base = a.data + base_idx;
     for (uint32_t k = 0; k < valid; k++) {
       uint32_t b = (mask >> k) & 1U;
-- 
2.43.0


From 8dacbaf0808463fc09bc5966615cf3d3aacf366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 03/15] fix: bitmap byte length must not wrap for lists of
 2^32-7 elements and more

---
 src/function/list_comparison.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index 2ef4ac8..143106c 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -23,6 +23,9 @@ namespace jitfusion {
 
 namespace {
 
+// Number of bytes holding len bits; len + 7 would wrap for the longest lists.
+inline uint32_t BitmapByteLen(uint32_t len) { return (len / 8) + (len % 8 != 0 ? 1U : 0U); }
+
 template <typename ListType>
 ListType IfLarge(ListType a, typename ListType::CElementType cmp_value, typename ListType::CElementType target_value,
                  void *exec_context) {
@@ -110,7 +113,7 @@ ListType IfNotEqual(ListType a, typename ListType::CElementType cmp_value, typen
 template <typename ListType>
 ListType IfByBitmapLLRB(U8ListStruct bitmap, ListType lhs, typename ListType::CElementType rhs, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
-  uint32_t required_bitmap_len = (lhs.len + 7) / 8;
+  uint32_t required_bitmap_len = BitmapByteLen(lhs.len);
   if (bitmap.len < required_bitmap_len) {
     exec_ctx->AddError("IfByBitmapLLRB: bitmap len is too short");
     return {nullptr, 0};
@@ -159,7 +162,7 @@ ListType IfByBitmapLLRB(U8ListStruct bitmap, ListType lhs, typename ListType::CE
 template <typename ListType>
 ListType IfByBitmapLBRL(U8ListStruct bitmap, typename ListType::CElementType lhs, ListType rhs, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
-  uint32_t required_bitmap_len = (rhs.len + 7) / 8;
+  uint32_t required_bitmap_len = BitmapByteLen(rhs.len);
   if (bitmap.len < required_bitmap_len) {
     exec_ctx->AddError("IfByBitmapLBRL: bitmap len is too short");
     return {nullptr, 0};
@@ -211,7 +214,7 @@ ListType IfByBitmapLLRL(U8ListStruct bitmap, ListType lhs, ListType rhs, void *e
     exec_ctx->AddError("IfByBitmapLLRL: lhs and rhs len mismatch");
     return {nullptr, 0};
   }
-  uint32_t required_bitmap_len = (lhs.len + 7) / 8;
+  uint32_t required_bitmap_len = BitmapByteLen(lhs.len);
   if (bitmap.len < required_bitmap_len) {
     exec_ctx->AddError("IfByBitmapLLRL: bitmap len is too short");
     return {nullptr, 0};
@@ -260,7 +263,7 @@ template <typename ListType, BinaryOPType OpType>
 U8ListStruct GenBitmap(ListType a, typename ListType::CElementType b, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
   U8ListStruct result;
-  result.len = (a.len + 7) / 8;
+  result.len = BitmapByteLen(a.len);
   result.data = reinterpret_cast<U8ListStruct::CElementType *>(
       exec_ctx->arena.Allocate(result.len * sizeof(U8ListStruct::CElementType)));
   if (a.len == 0) {
@@ -323,7 +326,7 @@ U8ListStruct GenBitmapList(ListType a, ListType b, void *exec_context) {
   }
   auto len = a.len;
   U8ListStruct result;
-  result.len = (len + 7) / 8;
+  result.len = BitmapByteLen(len);
   result.data = reinterpret_cast<U8ListStruct::CElementType *>(
       exec_ctx->arena.Allocate(result.len * sizeof(U8ListStruct::CElementType)));
   if (len == 0) {
@@ -381,7 +384,7 @@ template <typename ListType>
 ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void *exec_context) {
   using T = typename ListType::CElementType;
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
-  if ((a.len + 7) / 8 != bitmap.len) {
+  if (BitmapByteLen(a.len) != bitmap.len) {
     exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to list len");
     return {nullptr, 0};
   }
-- 
2.43.0


From 098351bb7a88e0594b2611eb70a8e07b9063db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 04/15] fix: GroupMax/GroupMin of a group holding only an
 infinity must be that infinity

---
 src/function/list_group.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/list_group.cc b/src/function/list_group.cc
index c577528..001e78f 100644
--- a/src/function/list_group.cc
+++ b/src/function/list_group.cc
@@ -129,7 +129,7 @@ VList GroupMax(VList values, U32ListStruct group_index, uint32_t distinct, void
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
-  V seed = std::numeric_limits<V>::lowest();
+  V seed = std::numeric_limits<V>::has_infinity ? -std::numeric_limits<V>::infinity() : std::numeric_limits<V>::lowest();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
     result.data[group_index.data[i]] = std::max(result.data[group_index.data[i]], values.data[i]);
@@ -149,7 +149,7 @@ VList GroupMin(VList values, U32ListStruct group_index, uint32_t distinct, void
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
-  V seed = std::numeric_limits<V>::max();
+  V seed = std::numeric_limits<V>::has_infinity ? std::numeric_limits<V>::infinity() : std::numeric_limits<V>::max();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
     result.data[group_index.data[i]] = std::min(result.data[group_index.data[i]], values.data[i]);
-- 
2.43.0


From 7b3b00a5d583e6f9df78e936cabb6953f20681ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 05/15] fix: integer conversion extends by the signedness of
 the source type

---
 src/codegen/codegen.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/codegen.cc b/src/codegen/codegen.cc
index 4ab4f88..a29b732 100644
--- a/src/codegen/codegen.cc
+++ b/src/codegen/codegen.cc
@@ -98,7 +98,7 @@ Status CodeGen::NumericTypeConvert(IRCodeGenContext &ctx, ValueType from, ValueT
     if (TypeHelper::IsIntegerType(to)) {
       *value =
           ctx.builder.CreateIntCast(*value, llvm::IntegerType::get(ctx.context, TypeHelper::GetBitWidthFromType(to)),
-                                    TypeHelper::IsSignedType(to));
+                                    TypeHelper::IsSignedType(from));
       return Status::OK();
     }
     if (TypeHelper::IsFloatType(to)) {
-- 
2.43.0


From 33a576a46aaf90e7ac25f30f910cc97807cf5c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 06/15] fix: if-block merge uses the block in which the last
 condition ends

---
 src/codegen/if_block_codegen.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/codegen/if_block_codegen.cc b/src/codegen/if_block_codegen.cc
index 9a09732..72e5698 100644
--- a/src/codegen/if_block_codegen.cc
+++ b/src/codegen/if_block_codegen.cc
@@ -61,12 +61,13 @@ Status CodeGen::Visit(IfBlockNode &if_block_node) {
     llvm::BasicBlock *cond_block = llvm::BasicBlock::Create(ctx_.context, "ifblock.cond", cur_function);
     ctx_.builder.SetInsertPoint(cond_block);
 
-    if (last_cond_block == nullptr) {
-      last_cond_block = cond_block;
-    }
-
     llvm::Value *cond_value{};
     JF_RETURN_NOT_OK(GetValue(args[cond_idx].get(), &cond_value));
+    // The condition may itself span several blocks; the edge to the merge block
+    // leaves from the block its evaluation ends in.
+    if (last_cond_block == nullptr) {
+      last_cond_block = ctx_.builder.GetInsertBlock();
+    }
     if (cond_value->getType()->isIntegerTy()) {
       cond_value = ctx_.builder.CreateICmpNE(cond_value, llvm::ConstantInt::get(cond_value->getType(), 0), "to_bool");
     } else if (cond_value->getType()->isFloatingPointTy()) {
-- 
2.43.0


From 1c5682d7b16009535773c41a534d80e417dcaaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 07/15] fix: pow with an integer exponent uses the whole 32-bit
 exponent

---
 src/function/math_function_init.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/function/math_function_init.cc b/src/function/math_function_init.cc
index e95bea8..d00c39e 100644
--- a/src/function/math_function_init.cc
+++ b/src/function/math_function_init.cc
@@ -86,9 +86,6 @@ llvm::Value *CallBuiltinPowIFunction(const FunctionSignature &sign,
   if (value->getType()->isIntegerTy()) {
     (void)CodeGen::NumericTypeConvert(ctx, sign.GetParamTypes().at(0), ValueType::kF64, &value);
   }
-  if (value->getType()->isDoubleTy()) {
-    (void)CodeGen::NumericTypeConvert(ctx, ValueType::kI32, ValueType::kI16, &power);
-  }
   llvm::Function *func =
       llvm::Intrinsic::getDeclaration(&ctx.module, llvm::Intrinsic::powi, {value->getType(), power->getType()});
   return ctx.builder.CreateCall(func, {value, power}, "powi");
-- 
2.43.0


From c29e220754bbc0afb5d1680ebd2d69fae0ac3e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 08/15] fix: list literals that differ only in the sign of a
 zero or in a NaN are distinct constants

---
 include/function_registry.h | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/function_registry.h b/include/function_registry.h
index d6b8b4c..41746e0 100644
--- a/include/function_registry.h
+++ b/include/function_registry.h
@@ -6,10 +6,13 @@
  */
 #pragma once
 
+#include <cstring>
 #include <functional>
 #include <map>
 #include <string>
+#include <type_traits>
 #include <unordered_map>
+#include <variant>
 #include <vector>
 #include "llvm/ExecutionEngine/Orc/LLJIT.h"
 #include "llvm/IR/Attributes.h"
@@ -52,6 +55,31 @@ struct LLVMStructType {
 
 constexpr const char *kCommutative = "commutative";
 
+// Orders list literals by content. Floating-point elements are compared by bit pattern, because operator< makes
+// 0.0 equivalent to -0.0 and a NaN equivalent to every value.
+struct ConstantListValueLess {
+  bool operator()(const ConstantListValueType &a, const ConstantListValueType &b) const {
+    if (a.index() != b.index()) {
+      return a.index() < b.index();
+    }
+    return std::visit(
+        [&b](const auto &lhs) {
+          using ListType = std::decay_t<decltype(lhs)>;
+          const auto &rhs = std::get<ListType>(b);
+          if constexpr (std::is_floating_point_v<typename ListType::value_type>) {
+            if (lhs.size() != rhs.size()) {
+              return lhs.size() < rhs.size();
+            }
+            return !lhs.empty() &&
+                   std::memcmp(lhs.data(), rhs.data(), lhs.size() * sizeof(typename ListType::value_type)) < 0;
+          } else {
+            return lhs < rhs;
+          }
+        },
+        a);
+  }
+};
+
 struct IRCodeGenContext {
   IRCodeGenContext(llvm::LLVMContext &context, llvm::Module &module, llvm::IRBuilder<> &builder,
                    llvm::Function *entry_function, LLVMStructType complex_type,
@@ -68,7 +96,7 @@ struct IRCodeGenContext {
   llvm::IRBuilder<> &builder;
   llvm::Function *entry_function;
   LLVMStructType complex_type;
-  std::map<ConstantListValueType, llvm::Value *> const_list_cache;
+  std::map<ConstantListValueType, llvm::Value *, ConstantListValueLess> const_list_cache;
   std::map<std::string, llvm::Constant *> const_string_cache;
   const std::unique_ptr<FunctionRegistry> &function_registry;
 };
-- 
2.43.0


From 23dd0dbb3ade4c332adba3bcf2446cdf9cb88b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 09/15] fix: programs compiled in one batch do not see each
 other's variables

---
 src/jit_core.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jit_core.cc b/src/jit_core.cc
index 4a46789..8584835 100644
--- a/src/jit_core.cc
+++ b/src/jit_core.cc
@@ -242,8 +242,9 @@ Status JitCore::BuildAndLink(const std::vector<ExecNode*>& nodes, const std::vec
   }
 
   // Validation runs up front on caller-supplied nodes.
-  Validator validator(func_registry);
+  // Every program has its own variables, so each one gets a validator of its own.
   for (auto* node : nodes) {
+    Validator validator(func_registry);
     JF_RETURN_NOT_OK(validator.Validate(node));
   }
 
-- 
2.43.0


From bae18f9e207358be8cd53f03bb7be3cb1ad80b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 10/15] fix: assigning a call without a value to a variable is
 refused

---
 src/validator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/validator.cc b/src/validator.cc
index 60e8d54..cef7bde 100644
--- a/src/validator.cc
+++ b/src/validator.cc
@@ -305,6 +305,9 @@ Status Validator::Visit(NoOPNode& no_op_node) {
     }
     JF_RETURN_NOT_OK(args[i]->Accept(this));
     if (!var_infos[i].name.empty()) {
+      if (ValueType::kVoid == args[i]->GetReturnType()) {
+        return MakeParseError(*args[i], "cannot assign a void value to variable '" + var_infos[i].name + "'");
+      }
       auto result = TrySetVar(var_infos[i].name, args[i]->GetReturnType(), var_infos[i].is_const);
       if (result == SetVarResult::kConstReassign) {
         return MakeParseError(*args[i], "cannot reassign const variable '" + var_infos[i].name + "'");
-- 
2.43.0


From 34d9e9d00c2b3a3f63739a8a9403c222176a86e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 11/15] fix: overriding a function also replaces its declared
 return type

---
 src/function_registry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/function_registry.cc b/src/function_registry.cc
index d706377..740e5d4 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -111,7 +111,9 @@ Status FunctionRegistry::RegisterFunc(const FunctionSignature& func_sign, Functi
     return Status::InvalidArgument("function ", func_sign.ToString(),
                                    " is already registered; pass allow_override=true to overwrite");
   }
-  signature2funcstruct_[func_sign] = std::move(func_struct);
+  // The return type is part of the stored key but not of its identity, so an override must replace the key as well.
+  signature2funcstruct_.erase(func_sign);
+  signature2funcstruct_.emplace(func_sign, std::move(func_struct));
   return Status::OK();
 }
 
-- 
2.43.0


From 62228e8cf60c15df6113f5654f8bafb78e315f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:55 +0000
Subject: [PATCH 12/15] fix: record an error when a concatenated string or list
 would exceed UINT32_MAX

---
 src/function/list_basic.cc           | 20 +++++++++++++++++++-
 src/function/string_function_init.cc |  9 ++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/function/list_basic.cc b/src/function/list_basic.cc
index 3f67f49..f67c017 100644
--- a/src/function/list_basic.cc
+++ b/src/function/list_basic.cc
@@ -8,6 +8,7 @@
 #include <charconv>
 #include <cmath>
 #include <cstring>
+#include <limits>
 #include <string>
 #include <string_view>
 #include <unordered_set>
@@ -27,7 +28,12 @@ template <typename ListType>
 ListType ListConcat(ListType a, ListType b, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
   ListType result;
-  result.len = a.len + b.len;
+  const uint64_t total_len = static_cast<uint64_t>(a.len) + b.len;
+  if (total_len > std::numeric_limits<uint32_t>::max()) {
+    exec_ctx->AddError("ListConcat: result too long: " + std::to_string(total_len) + " elements");
+    return {nullptr, 0};
+  }
+  result.len = static_cast<uint32_t>(total_len);
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate(result.len * sizeof(typename ListType::CElementType)));
   memcpy(result.data, a.data, a.len * sizeof(typename ListType::CElementType));
@@ -184,6 +190,10 @@ inline StringListStruct CrossJoinString(StringListStruct a, StringListStruct b,
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
   StringListStruct result;
   uint64_t total_elems = static_cast<uint64_t>(a.len) * static_cast<uint64_t>(b.len);
+  if (total_elems > std::numeric_limits<uint32_t>::max()) {
+    exec_ctx->AddError("CrossJoin: result too long: " + std::to_string(total_elems) + " elements");
+    return {nullptr, 0};
+  }
   result.len = static_cast<uint32_t>(total_elems);
   if (total_elems == 0) {
     result.data = nullptr;
@@ -225,6 +235,10 @@ inline StringListStruct CrossJoinString(StringListStruct a, StringListStruct b,
         memcpy(cursor, bv.data, bv.len);
         cursor += bv.len;
       }
+      if (static_cast<uint64_t>(cursor - start) > std::numeric_limits<uint32_t>::max()) {
+        exec_ctx->AddError("CrossJoin: joined string too long: " + std::to_string(cursor - start) + " bytes");
+        return {nullptr, 0};
+      }
       result.data[out_idx].data = start;
       result.data[out_idx].len = static_cast<uint32_t>(cursor - start);
       ++out_idx;
@@ -302,6 +316,10 @@ inline StringListStruct ZipConcatString(StringListStruct a, StringListStruct b,
       memcpy(cursor, bv.data, bv.len);
       cursor += bv.len;
     }
+    if (static_cast<uint64_t>(cursor - start) > std::numeric_limits<uint32_t>::max()) {
+      exec_ctx->AddError("ZipConcat: joined string too long: " + std::to_string(cursor - start) + " bytes");
+      return {nullptr, 0};
+    }
     result.data[i].data = start;
     result.data[i].len = static_cast<uint32_t>(cursor - start);
   }
diff --git a/src/function/string_function_init.cc b/src/function/string_function_init.cc
index 86b0be7..30ab1a5 100644
--- a/src/function/string_function_init.cc
+++ b/src/function/string_function_init.cc
@@ -6,6 +6,8 @@
  */
 #include <charconv>
 #include <cstring>
+#include <limits>
+#include <string>
 #include <string_view>
 #include "codegen/codegen.h"
 #include "exec_engine.h"
@@ -21,7 +23,12 @@ namespace {
 inline StringStruct StringConcat(StringStruct a, StringStruct b, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
   StringStruct result;
-  result.len = a.len + b.len;
+  const uint64_t total_len = static_cast<uint64_t>(a.len) + b.len;
+  if (total_len > std::numeric_limits<uint32_t>::max()) {
+    exec_ctx->AddError("StringConcat: result too long: " + std::to_string(total_len) + " bytes");
+    return {nullptr, 0};
+  }
+  result.len = static_cast<uint32_t>(total_len);
   result.data = reinterpret_cast<char *>(exec_ctx->arena.Allocate(result.len * sizeof(char)));
   memcpy(result.data, a.data, a.len * sizeof(char));
   memcpy(result.data + a.len, b.data, b.len * sizeof(char));
-- 
2.43.0


From 0d07a8ea520090a59a0e5e76e7437f5cd3cad72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 13/15] fix: hash lists of 2 GiB and more over all their bytes

MurmurHash3_x86_32 took the byte count as int: a list of 2^31 or more bytes made the block
count negative (reads outside the list), and a multiple of 2^32 bytes hashed as empty.
---
 src/function/murmurhash3.cc | 10 +++++-----
 src/function/murmurhash3.h  |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/function/murmurhash3.cc b/src/function/murmurhash3.cc
index e63fd8b..82b54a1 100644
--- a/src/function/murmurhash3.cc
+++ b/src/function/murmurhash3.cc
@@ -47,7 +47,7 @@ inline uint64_t rotl64(uint64_t x, int8_t r) { return (x << r) | (x >> (64 - r))
 // handle aligned reads, do the conversion here
 namespace jitfusion {
 
-FORCE_INLINE uint32_t getblock32(const uint32_t *p, int i) { return p[i]; }
+FORCE_INLINE uint32_t getblock32(const uint32_t *p, int64_t i) { return p[i]; }
 
 FORCE_INLINE uint64_t getblock64(const uint64_t *p, int i) { return p[i]; }
 
@@ -78,9 +78,9 @@ FORCE_INLINE uint64_t fmix64(uint64_t k) {
 
 //-----------------------------------------------------------------------------
 
-void MurmurHash3_x86_32(const void *key, int len, uint32_t seed, void *out) {
+void MurmurHash3_x86_32(const void *key, size_t len, uint32_t seed, void *out) {
   const uint8_t *data = (const uint8_t *)key;
-  const int nblocks = len / 4;
+  const auto nblocks = static_cast<int64_t>(len / 4);
 
   uint32_t h1 = seed;
 
@@ -92,7 +92,7 @@ void MurmurHash3_x86_32(const void *key, int len, uint32_t seed, void *out) {
 
   const uint32_t *blocks = (const uint32_t *)(data + nblocks * 4);
 
-  for (int i = -nblocks; i; i++) {
+  for (int64_t i = -nblocks; i; i++) {
     uint32_t k1 = getblock32(blocks, i);
 
     k1 *= c1;
@@ -127,7 +127,7 @@ void MurmurHash3_x86_32(const void *key, int len, uint32_t seed, void *out) {
   //----------
   // finalization
 
-  h1 ^= len;
+  h1 ^= static_cast<uint32_t>(len);
 
   h1 = fmix32(h1);
 
diff --git a/src/function/murmurhash3.h b/src/function/murmurhash3.h
index 3124d50..f3e8c15 100644
--- a/src/function/murmurhash3.h
+++ b/src/function/murmurhash3.h
@@ -19,13 +19,14 @@ typedef unsigned __int64 uint64_t;
 
 #else  // defined(_MSC_VER)
 
+#  include <stddef.h>
 #  include <stdint.h>
 
 #endif  // !defined(_MSC_VER)
 
 //-----------------------------------------------------------------------------
 namespace jitfusion {
-void MurmurHash3_x86_32(const void* key, int len, uint32_t seed, void* out);
+void MurmurHash3_x86_32(const void* key, size_t len, uint32_t seed, void* out);
 
 void MurmurHash3_x86_128(const void* key, int len, uint32_t seed, void* out);
 
-- 
2.43.0


From 9b4a7ca39546921d85d90df369a0fc184e12a005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 14/15] fix: reject oversized length fields in a compiled
 artifact instead of following them

---
 src/compiled_artifact.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/compiled_artifact.cc b/src/compiled_artifact.cc
index 2c55b07..3de2848 100644
--- a/src/compiled_artifact.cc
+++ b/src/compiled_artifact.cc
@@ -127,7 +127,7 @@ class ArtifactReader {
   }
 
   Status ReadBytesView(std::size_t n, std::string_view* out) {
-    if (pos_ + n > buf_.size()) {
+    if (n > remaining()) {
       return Status::InvalidArgument("compiled artifact: truncated blob (want ", n, " bytes, have ", buf_.size() - pos_,
                                      ")");
     }
@@ -254,6 +254,10 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   if (out_header->mode == ArtifactMode::kSingle && num_entries != 1) {
     return Status::InvalidArgument("compiled artifact: single-mode artifact with num_entries=", num_entries);
   }
+  if (num_entries > r.remaining()) {
+    return Status::InvalidArgument("compiled artifact: truncated blob (want ", num_entries, " return types, have ",
+                                   r.remaining(), " bytes)");
+  }
   out_header->per_entry_ret_types.resize(num_entries);
   for (std::uint32_t i = 0; i < num_entries; ++i) {
     std::uint8_t rt_byte = 0;
@@ -268,6 +272,11 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   std::uint32_t ext_count = 0;
   JF_RETURN_NOT_OK(r.ReadU32LE(&ext_count));
   out_header->extensions.clear();
+  // Every extension takes at least its tag and its payload length.
+  if (ext_count > r.remaining() / 8) {
+    return Status::InvalidArgument("compiled artifact: truncated blob (want ", ext_count, " extensions, have ",
+                                   r.remaining(), " bytes)");
+  }
   out_header->extensions.reserve(ext_count);
   for (std::uint32_t i = 0; i < ext_count; ++i) {
     ArtifactExtension ext;
-- 
2.43.0


From 619bd0eeda4355187dc222d62f12892f90b7c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 15/15] fix: a failed compile or load leaves the engine
 uncompiled; executing an uncompiled engine reports an error

---
 src/batch_exec_engine.cc | 29 ++++++++++++++++++++++++++---
 src/exec_engine.cc       | 10 ++++++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 5484bb1..3c023ed 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -31,11 +31,12 @@ std::string_view BatchExecEngine::GetIRCode() const { return core_->GetIRCode();
 
 Status BatchExecEngine::Compile(const std::vector<std::unique_ptr<ExecNode>>& exec_nodes,
                                 const std::unique_ptr<FunctionRegistry>& func_registry) {
+  // Clear previous compilation state up front so that a failed Compile leaves the engine uncompiled.
+  entry_func_ptrs_.clear();
+  ret_types_.clear();
   if (exec_nodes.empty()) {
     return Status::ParseError("Compile: exec_nodes is empty");
   }
-  entry_func_ptrs_.clear();
-  ret_types_.clear();
 
   std::vector<ExecNode*> nodes;
   nodes.reserve(exec_nodes.size());
@@ -45,7 +46,13 @@ Status BatchExecEngine::Compile(const std::vector<std::unique_ptr<ExecNode>>& ex
     nodes.emplace_back(exec_nodes[i].get());
     names.emplace_back(kEntryFunctionName + std::to_string(i));
   }
-  return core_->BuildAndLink(nodes, names, func_registry, &entry_func_ptrs_, &ret_types_);
+  std::vector<char*> func_ptrs;
+  std::vector<ValueType> ret_types;
+  JF_RETURN_NOT_OK(core_->BuildAndLink(nodes, names, func_registry, &func_ptrs, &ret_types));
+
+  entry_func_ptrs_ = std::move(func_ptrs);
+  ret_types_ = std::move(ret_types);
+  return Status::OK();
 }
 
 Status BatchExecEngine::ExecuteAt(size_t index, void* entry_arguments, RetType* result) {
@@ -105,6 +112,9 @@ Status BatchExecEngine::ExecuteAt(size_t index, ExecContext& exec_ctx, void* ent
 }
 
 Status BatchExecEngine::ExecuteAll(void* entry_arguments, std::vector<RetType>* results) {
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet. Call Compile() or LoadCompiled() first.");
+  }
   results->resize(entry_func_ptrs_.size());
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
@@ -123,6 +133,9 @@ Status BatchExecEngine::ExecuteAll(void* entry_arguments, std::vector<RetType>*
 }
 
 Status BatchExecEngine::ExecuteAll(ExecContext& exec_ctx, void* entry_arguments, std::vector<RetType>* results) {
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet. Call Compile() or LoadCompiled() first.");
+  }
   results->resize(entry_func_ptrs_.size());
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
@@ -141,6 +154,9 @@ Status BatchExecEngine::ExecuteAll(ExecContext& exec_ctx, void* entry_arguments,
 }
 
 Status BatchExecEngine::ExecuteAll(void* entry_arguments, void* results) {
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet. Call Compile() or LoadCompiled() first.");
+  }
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
     Status st = ExecuteAt(i, entry_arguments, results);
@@ -158,6 +174,9 @@ Status BatchExecEngine::ExecuteAll(void* entry_arguments, void* results) {
 }
 
 Status BatchExecEngine::ExecuteAll(ExecContext& exec_ctx, void* entry_arguments, void* results) {
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet. Call Compile() or LoadCompiled() first.");
+  }
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
     Status st = ExecuteAt(i, exec_ctx, entry_arguments, results);
@@ -203,6 +222,10 @@ Status BatchExecEngine::SaveCompiled(std::string* out) const {
 
 Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_ptr<FunctionRegistry>& func_registry,
                                      const LoadCompiledOptions& opts) {
+  // As in Compile: a failed load leaves the engine uncompiled. Replacing core_ below releases the old code.
+  entry_func_ptrs_.clear();
+  ret_types_.clear();
+
   ArtifactHeader header;
   std::string_view obj_view;
   JF_RETURN_NOT_OK(DeserializeArtifact(bytes, &header, &obj_view));
diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index b15c9eb..ce88f13 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -68,6 +68,9 @@ Status ExecEngine::Execute(ExecContext& exec_ctx, void* entry_arguments, RetType
 }
 
 Status ExecEngine::Execute(void* entry_arguments, void* result) {
+  if (entry_func_ptr_ == nullptr) {
+    return Status::RuntimeError("Execute: nothing compiled yet. Call Compile() or LoadCompiled() first.");
+  }
   ExecContext exec_ctx(core_->GetOption().exec_ctx_arena_alloc_min_chunk_size);
   reinterpret_cast<::jitfusion::execute_dispatch::return_void_function_type>(entry_func_ptr_)(entry_arguments,
                                                                                               &exec_ctx, result);
@@ -78,6 +81,9 @@ Status ExecEngine::Execute(void* entry_arguments, void* result) {
 }
 
 Status ExecEngine::Execute(ExecContext& exec_ctx, void* entry_arguments, void* result) {
+  if (entry_func_ptr_ == nullptr) {
+    return Status::RuntimeError("Execute: nothing compiled yet. Call Compile() or LoadCompiled() first.");
+  }
   reinterpret_cast<::jitfusion::execute_dispatch::return_void_function_type>(entry_func_ptr_)(entry_arguments,
                                                                                               &exec_ctx, result);
   Status ret = Status::OK();
@@ -117,6 +123,10 @@ Status ExecEngine::SaveCompiled(std::string* out) const {
 
 Status ExecEngine::LoadCompiled(std::string_view bytes, const std::unique_ptr<FunctionRegistry>& func_registry,
                                 const LoadCompiledOptions& opts) {
+  // As in Compile: a failed load leaves the engine uncompiled. Replacing core_ below releases the old code.
+  entry_func_ptr_ = nullptr;
+  ret_type_ = ValueType::kUnknown;
+
   ArtifactHeader header;
   std::string_view obj_view;
   JF_RETURN_NOT_OK(DeserializeArtifact(bytes, &header, &obj_view));
-- 
2.43.0

