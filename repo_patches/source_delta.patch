From b5f1651cdf2326d9d7c123735efee66298e8b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:33 +0000
Subject: [PATCH 01/15] fix: when-block condition spanning several basic blocks
 produced an invalid phi

The fall-through edge into the merge block comes from the block the condition's
code ends in, which is not the block it starts in once the condition contains a
short-circuit operator, an if or a switch. Compiling such a program without an
else branch failed with 'Module verification failed: PHI node entries do not
match predecessors'.
---
 src/codegen/if_block_codegen.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/codegen/if_block_codegen.cc b/src/codegen/if_block_codegen.cc
index 9a09732..af6e4b3 100644
--- a/src/codegen/if_block_codegen.cc
+++ b/src/codegen/if_block_codegen.cc
@@ -61,12 +61,13 @@ Status CodeGen::Visit(IfBlockNode &if_block_node) {
     llvm::BasicBlock *cond_block = llvm::BasicBlock::Create(ctx_.context, "ifblock.cond", cur_function);
     ctx_.builder.SetInsertPoint(cond_block);
 
-    if (last_cond_block == nullptr) {
-      last_cond_block = cond_block;
-    }
-
     llvm::Value *cond_value{};
     JF_RETURN_NOT_OK(GetValue(args[cond_idx].get(), &cond_value));
+    // The condition may itself create blocks (and/or, if, switch), so the block
+    // that falls through to the merge is the one codegen ended up in.
+    if (last_cond_block == nullptr) {
+      last_cond_block = ctx_.builder.GetInsertBlock();
+    }
     if (cond_value->getType()->isIntegerTy()) {
       cond_value = ctx_.builder.CreateICmpNE(cond_value, llvm::ConstantInt::get(cond_value->getType(), 0), "to_bool");
     } else if (cond_value->getType()->isFloatingPointTy()) {
-- 
2.43.0


From 688fb3d59ae027cedd4248906548385e42859813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:33 +0000
Subject: [PATCH 02/15] fix: variables of one batch entry leaked into the
 validation of the next

One Validator (and its scope stack) was reused for all entries of a batch, so an
entry that assigned a variable name already used by an earlier entry with another
type or with const was rejected, although entries do not share variables.
---
 src/jit_core.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jit_core.cc b/src/jit_core.cc
index 4a46789..aad6e6c 100644
--- a/src/jit_core.cc
+++ b/src/jit_core.cc
@@ -241,9 +241,10 @@ Status JitCore::BuildAndLink(const std::vector<ExecNode*>& nodes, const std::vec
     return Status::RuntimeError("[internal] BuildAndLink: nodes.size() != symbol_names.size() (compiler bug)");
   }
 
-  // Validation runs up front on caller-supplied nodes.
-  Validator validator(func_registry);
+  // Validation runs up front on caller-supplied nodes. Every entry has its own
+  // variables, so each gets its own validator.
   for (auto* node : nodes) {
+    Validator validator(func_registry);
     JF_RETURN_NOT_OK(validator.Validate(node));
   }
 
-- 
2.43.0


From 09bfe7214f87c3c1570ea7af7a4d25710e29e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 03/15] fix: pow(f64|i32|i64, i32) truncated its exponent to 16
 bits and ended the process

The exponent of the powi intrinsic was converted to i16. With an exponent that is
not a compile-time constant LLVM rejects that during instruction selection
('POWI exponent does not match sizeof(int)') and exits the process from Compile;
constant exponents beyond 32767 silently wrapped. The intrinsic takes an i32.
---
 src/function/math_function_init.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/function/math_function_init.cc b/src/function/math_function_init.cc
index e95bea8..d00c39e 100644
--- a/src/function/math_function_init.cc
+++ b/src/function/math_function_init.cc
@@ -86,9 +86,6 @@ llvm::Value *CallBuiltinPowIFunction(const FunctionSignature &sign,
   if (value->getType()->isIntegerTy()) {
     (void)CodeGen::NumericTypeConvert(ctx, sign.GetParamTypes().at(0), ValueType::kF64, &value);
   }
-  if (value->getType()->isDoubleTy()) {
-    (void)CodeGen::NumericTypeConvert(ctx, ValueType::kI32, ValueType::kI16, &power);
-  }
   llvm::Function *func =
       llvm::Intrinsic::getDeclaration(&ctx.module, llvm::Intrinsic::powi, {value->getType(), power->getType()});
   return ctx.builder.CreateCall(func, {value, power}, "powi");
-- 
2.43.0


From 0bb217e5a060f2d7bfd452bfdf5c835a86bf139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 04/15] fix: Gen*Bitmap wrote one byte past its result when the
 length is a multiple of 8

The partial last byte was cleared even when there is none, which overwrites the
byte behind the allocation: arena padding in the best case, the heap block's end
when the arena chunk is exactly full.
---
 src/function/list_comparison.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index e7b2912..e485395 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -290,7 +290,9 @@ U8ListStruct GenBitmap(ListType a, typename ListType::CElementType b, void *exec
     result.data[(i / 8)] = mask_bit;
   }
   auto last_index = (vec_loop_len / 8);
-  result.data[last_index] = 0;
+  if (last_index < result.len) {
+    result.data[last_index] = 0;
+  }
   for (int j = 0; i + j < a.len; j++) {
     uint32_t is_true;
     if constexpr (BinaryOPType::kLarge == OpType) {
@@ -350,7 +352,9 @@ U8ListStruct GenBitmapList(ListType a, ListType b, void *exec_context) {
     result.data[(i / 8)] = mask_bit;
   }
   auto last_index = (vec_loop_len / 8);
-  result.data[last_index] = 0;
+  if (last_index < result.len) {
+    result.data[last_index] = 0;
+  }
   for (int j = 0; i + j < len; j++) {
     uint32_t is_true;
     if constexpr (BinaryOPType::kLarge == OpType) {
-- 
2.43.0


From 43c20743e0260304d1e5ba1c0e292aaab62276c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 05/15] fix: argument order of commutative calls depended on
 heap addresses

The canonicalizer ordered the two arguments by pointer value, so the very same
program could call a commutative function with either argument order from one
compile to the next; for functions whose error text names their operands (the
list arithmetic built-ins) the reported error changed with the heap layout. Order
by first appearance in the function instead.
---
 src/jit_core.cc | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/jit_core.cc b/src/jit_core.cc
index aad6e6c..0714dcb 100644
--- a/src/jit_core.cc
+++ b/src/jit_core.cc
@@ -12,6 +12,7 @@
 #include <vector>
 #include "codegen/codegen.h"
 #include "function/function_init.h"
+#include "llvm/ADT/DenseMap.h"
 #include "llvm/ExecutionEngine/ExecutionEngine.h"
 #include "llvm/ExecutionEngine/Orc/ObjectTransformLayer.h"
 #include "llvm/IR/Verifier.h"
@@ -136,6 +137,23 @@ struct CommutativeCallCanonicalizerPass : public llvm::PassInfoMixin<Commutative
 
   static llvm::PreservedAnalyses run(llvm::Function& f, llvm::FunctionAnalysisManager& /*AM*/) {
     bool changed = false;
+    // Order in which values first appear in the function. The canonical argument
+    // order must not depend on where values happen to be allocated, otherwise the
+    // same program may call a function with either argument order.
+    llvm::DenseMap<const llvm::Value*, unsigned> order;
+    for (auto& arg : f.args()) {
+      order.try_emplace(&arg, order.size());
+    }
+    for (auto& bb : f) {
+      for (auto& i : bb) {
+        order.try_emplace(&i, order.size());
+        for (auto& operand : i.operands()) {
+          if (llvm::isa<llvm::Constant>(operand)) {
+            order.try_emplace(operand.get(), order.size());
+          }
+        }
+      }
+    }
     for (auto& bb : f) {
       for (auto& i : bb) {
         if (auto* ci = llvm::dyn_cast<llvm::CallInst>(&i)) {
@@ -154,7 +172,7 @@ struct CommutativeCallCanonicalizerPass : public llvm::PassInfoMixin<Commutative
           if (arg0->getType() != arg1->getType()) {
             continue;
           }
-          if (ShouldSwapArguments(arg0, arg1)) {
+          if (order.lookup(arg0) > order.lookup(arg1)) {
             ci->setArgOperand(0, arg1);
             ci->setArgOperand(1, arg0);
             changed = true;
@@ -164,11 +182,6 @@ struct CommutativeCallCanonicalizerPass : public llvm::PassInfoMixin<Commutative
     }
     return changed ? llvm::PreservedAnalyses::none() : llvm::PreservedAnalyses::all();
   }
-
- private:
-  static bool ShouldSwapArguments(llvm::Value* arg0, llvm::Value* arg1) {
-    return std::greater<llvm::Value*>()(arg0, arg1);
-  }
 };
 
 Status BuildEntryFunction(llvm::LLVMContext& llvm_context, std::unique_ptr<llvm::Module>& owner,
-- 
2.43.0


From 390fe64a7c38d59e1c78d056770d90e59336e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 06/15] fix: 8 and 16 bit arguments of C functions were passed
 with undefined upper bits

Generated code called C functions without zeroext/signext on narrow integer
parameters. Functions compiled by clang assume that the caller extended them, so
for example CastString(CastU16(x)) indexed its digit table out of bounds.
---
 src/codegen/function_codegen.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/codegen/function_codegen.cc b/src/codegen/function_codegen.cc
index 42d39a0..43a481a 100644
--- a/src/codegen/function_codegen.cc
+++ b/src/codegen/function_codegen.cc
@@ -57,6 +57,17 @@ Status CodeGen::Visit(FunctionNode& function_node) {
           llvm::FunctionType::get(llvm_ret_type, llvm::ArrayRef<llvm::Type*>(args_llvm_type_list), false);
 
       llvm::FunctionCallee call_func_callee = ctx_.module.getOrInsertFunction(call_symbol_name, func_type);
+      // 8 and 16 bit integers are passed in full registers; a callee compiled by
+      // clang relies on the caller having extended them.
+      if (auto* callee = llvm::dyn_cast<llvm::Function>(call_func_callee.getCallee())) {
+        for (unsigned i = 0; i < args_type_list.size(); ++i) {
+          if (args_type_list[i] == ValueType::kU8 || args_type_list[i] == ValueType::kU16) {
+            callee->addParamAttr(i, llvm::Attribute::ZExt);
+          } else if (args_type_list[i] == ValueType::kI8 || args_type_list[i] == ValueType::kI16) {
+            callee->addParamAttr(i, llvm::Attribute::SExt);
+          }
+        }
+      }
 
       if (function_node.GetReturnType() == ValueType::kVoid) {
         ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list);
-- 
2.43.0


From e5032bb7501656f798c21630a101637e556e8958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:53 +0000
Subject: [PATCH 07/15] fix: a failed compile left IR, saved bytes or entries
 of another program behind

BuildAndLink only reset the engine after validation had succeeded and not
at all when a later step failed, so a batch engine could keep null entry
pointers (and crash on execution), and GetIRCode() and the entry count kept
describing a program that is no longer served.
---
 src/batch_exec_engine.cc |  5 +++--
 src/jit_core.cc          | 16 ++++++++++++++--
 src/jit_core.h           |  5 +++++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 5484bb1..9467b0b 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -31,11 +31,12 @@ std::string_view BatchExecEngine::GetIRCode() const { return core_->GetIRCode();
 
 Status BatchExecEngine::Compile(const std::vector<std::unique_ptr<ExecNode>>& exec_nodes,
                                 const std::unique_ptr<FunctionRegistry>& func_registry) {
+  entry_func_ptrs_.clear();
+  ret_types_.clear();
   if (exec_nodes.empty()) {
+    core_->Reset();
     return Status::ParseError("Compile: exec_nodes is empty");
   }
-  entry_func_ptrs_.clear();
-  ret_types_.clear();
 
   std::vector<ExecNode*> nodes;
   nodes.reserve(exec_nodes.size());
diff --git a/src/jit_core.cc b/src/jit_core.cc
index 0714dcb..e38c90a 100644
--- a/src/jit_core.cc
+++ b/src/jit_core.cc
@@ -247,6 +247,20 @@ Status JitCore::CreateJit() {
 Status JitCore::BuildAndLink(const std::vector<ExecNode*>& nodes, const std::vector<std::string>& symbol_names,
                              const std::unique_ptr<FunctionRegistry>& func_registry, std::vector<char*>* out_func_ptrs,
                              std::vector<ValueType>* out_ret_types) {
+  Reset();
+  Status ret = DoBuildAndLink(nodes, symbol_names, func_registry, out_func_ptrs, out_ret_types);
+  if (!ret.ok()) {
+    // Leave no partial state behind, whichever step failed.
+    out_func_ptrs->clear();
+    out_ret_types->clear();
+    Reset();
+  }
+  return ret;
+}
+
+Status JitCore::DoBuildAndLink(const std::vector<ExecNode*>& nodes, const std::vector<std::string>& symbol_names,
+                               const std::unique_ptr<FunctionRegistry>& func_registry,
+                               std::vector<char*>* out_func_ptrs, std::vector<ValueType>* out_ret_types) {
   if (nodes.empty()) {
     return Status::ParseError("BuildAndLink: nodes is empty");
   }
@@ -261,8 +275,6 @@ Status JitCore::BuildAndLink(const std::vector<ExecNode*>& nodes, const std::vec
     JF_RETURN_NOT_OK(validator.Validate(node));
   }
 
-  Reset();
-
   auto llvm_context = std::make_unique<llvm::LLVMContext>();
   auto owner = std::make_unique<llvm::Module>("module", *llvm_context);
   LLVMStructType llvm_struct_type = CreateLLVMStructType(*llvm_context);
diff --git a/src/jit_core.h b/src/jit_core.h
index f37eac0..70ce6b9 100644
--- a/src/jit_core.h
+++ b/src/jit_core.h
@@ -89,6 +89,11 @@ class JitCore {
   // with the right FP options and add the process dylib resolver.
   Status CreateJit();
 
+  // BuildAndLink without the cleanup on failure.
+  Status DoBuildAndLink(const std::vector<ExecNode*>& nodes, const std::vector<std::string>& symbol_names,
+                        const std::unique_ptr<FunctionRegistry>& func_registry, std::vector<char*>* out_func_ptrs,
+                        std::vector<ValueType>* out_ret_types);
+
   ExecEngineOption option_;
   std::unique_ptr<llvm::orc::LLJIT> jit_;
   std::string ir_code_;
-- 
2.43.0


From de8277a85494b5bd05d56482fc7267ba685f3f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:53 +0000
Subject: [PATCH 08/15] fix: executing an engine that holds no program crashed
 or reported success

The void* overloads of ExecEngine::Execute called a null pointer, and
ExecuteAll of an engine without entries (also the pipeline) returned OK
without doing anything.
---
 src/batch_exec_engine.cc | 12 ++++++++++++
 src/exec_engine.cc       |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 9467b0b..536bc22 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -107,6 +107,9 @@ Status BatchExecEngine::ExecuteAt(size_t index, ExecContext& exec_ctx, void* ent
 
 Status BatchExecEngine::ExecuteAll(void* entry_arguments, std::vector<RetType>* results) {
   results->resize(entry_func_ptrs_.size());
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet. Call Compile() first.");
+  }
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
     Status st = ExecuteAt(i, entry_arguments, &(*results)[i]);
@@ -125,6 +128,9 @@ Status BatchExecEngine::ExecuteAll(void* entry_arguments, std::vector<RetType>*
 
 Status BatchExecEngine::ExecuteAll(ExecContext& exec_ctx, void* entry_arguments, std::vector<RetType>* results) {
   results->resize(entry_func_ptrs_.size());
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet. Call Compile() first.");
+  }
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
     Status st = ExecuteAt(i, exec_ctx, entry_arguments, &(*results)[i]);
@@ -142,6 +148,9 @@ Status BatchExecEngine::ExecuteAll(ExecContext& exec_ctx, void* entry_arguments,
 }
 
 Status BatchExecEngine::ExecuteAll(void* entry_arguments, void* results) {
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet. Call Compile() first.");
+  }
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
     Status st = ExecuteAt(i, entry_arguments, results);
@@ -159,6 +168,9 @@ Status BatchExecEngine::ExecuteAll(void* entry_arguments, void* results) {
 }
 
 Status BatchExecEngine::ExecuteAll(ExecContext& exec_ctx, void* entry_arguments, void* results) {
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet. Call Compile() first.");
+  }
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
     Status st = ExecuteAt(i, exec_ctx, entry_arguments, results);
diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index b15c9eb..7f843a4 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -68,6 +68,9 @@ Status ExecEngine::Execute(ExecContext& exec_ctx, void* entry_arguments, RetType
 }
 
 Status ExecEngine::Execute(void* entry_arguments, void* result) {
+  if (entry_func_ptr_ == nullptr) {
+    return Status::RuntimeError("Execute: nothing compiled yet. Call Compile() first.");
+  }
   ExecContext exec_ctx(core_->GetOption().exec_ctx_arena_alloc_min_chunk_size);
   reinterpret_cast<::jitfusion::execute_dispatch::return_void_function_type>(entry_func_ptr_)(entry_arguments,
                                                                                               &exec_ctx, result);
@@ -78,6 +81,9 @@ Status ExecEngine::Execute(void* entry_arguments, void* result) {
 }
 
 Status ExecEngine::Execute(ExecContext& exec_ctx, void* entry_arguments, void* result) {
+  if (entry_func_ptr_ == nullptr) {
+    return Status::RuntimeError("Execute: nothing compiled yet. Call Compile() first.");
+  }
   reinterpret_cast<::jitfusion::execute_dispatch::return_void_function_type>(entry_func_ptr_)(entry_arguments,
                                                                                               &exec_ctx, result);
   Status ret = Status::OK();
-- 
2.43.0


From f8f61517fa2152312c1ea5f71bd99cd528e23e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 09/15] fix: a load that failed late destroyed the program
 being served

LoadCompiled replaced the JIT before it had linked the artifact, leaving
the engine with entry pointers into freed code when linking failed. It also
replaced the engine's floating-point option for all later compiles with
that of the artifact.
---
 src/batch_exec_engine.cc |  8 ++++----
 src/exec_engine.cc       | 15 +++++++--------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 536bc22..6a14c04 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -223,9 +223,8 @@ Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_p
   JF_RETURN_NOT_OK(CheckHostCompatibility(header, opts, LLVM_VERSION_STRING, llvm::sys::getProcessTriple(),
                                           llvm::sys::getHostCPUName().str(), ArtifactMode::kBatch));
 
-  ExecEngineOption new_opt = core_->GetOption();
-  new_opt.fp_math_mode = header.fp_math_mode;
-  core_ = std::make_unique<JitCore>(new_opt);
+  // Installed only when every step has succeeded (see ExecEngine::LoadCompiled).
+  auto core = std::make_unique<JitCore>(core_->GetOption());
 
   const size_t n = header.per_entry_ret_types.size();
   std::vector<std::string> symbol_names;
@@ -234,8 +233,9 @@ Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_p
     symbol_names.emplace_back(kEntryFunctionName + std::to_string(i));
   }
   std::vector<char*> func_ptrs;
-  JF_RETURN_NOT_OK(core_->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
+  JF_RETURN_NOT_OK(core->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
 
+  core_ = std::move(core);
   entry_func_ptrs_ = std::move(func_ptrs);
   ret_types_ = std::move(header.per_entry_ret_types);
   return Status::OK();
diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index 7f843a4..27b959b 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -130,18 +130,17 @@ Status ExecEngine::LoadCompiled(std::string_view bytes, const std::unique_ptr<Fu
   JF_RETURN_NOT_OK(CheckHostCompatibility(header, opts, LLVM_VERSION_STRING, llvm::sys::getProcessTriple(),
                                           llvm::sys::getHostCPUName().str(), ArtifactMode::kSingle));
 
-  // Rebuild a JitCore that reflects the FP mode actually baked into the
-  // artifact (FP mode affects codegen flags, but the object bytes are
-  // already codegen'd — we only need the LLJIT to match so that any
-  // linker flags stay consistent).
-  ExecEngineOption new_opt = core_->GetOption();
-  new_opt.fp_math_mode = header.fp_math_mode;
-  core_ = std::make_unique<JitCore>(new_opt);
+  // Load into a separate JitCore and install it only when every step has
+  // succeeded: until then the engine keeps serving its current program. The
+  // object bytes are already codegen'd, so the artifact's FP mode must not
+  // replace the engine's own option, which the next Compile() has to honour.
+  auto core = std::make_unique<JitCore>(core_->GetOption());
 
   std::vector<std::string> symbol_names{kEntryFunctionName};
   std::vector<char*> func_ptrs;
-  JF_RETURN_NOT_OK(core_->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
+  JF_RETURN_NOT_OK(core->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
 
+  core_ = std::move(core);
   entry_func_ptr_ = func_ptrs[0];
   // DeserializeArtifact guarantees per_entry_ret_types is non-empty
   // (num_entries >= 1, and single-mode blobs specifically have exactly
-- 
2.43.0


From bd0e56188f8de9285efe004d09ce995fd40c1bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:16 +0000
Subject: [PATCH 10/15] fix: corrupted counts and sizes in an artifact threw or
 read out of bounds

Size checks could wrap around, entry and extension counts were used for
allocations before they were checked, and unknown return types were
accepted and only failed at execution.
---
 src/compiled_artifact.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/compiled_artifact.cc b/src/compiled_artifact.cc
index 2c55b07..9de92aa 100644
--- a/src/compiled_artifact.cc
+++ b/src/compiled_artifact.cc
@@ -103,7 +103,7 @@ class ArtifactReader {
   Status ReadLenPrefixedStr(std::string* out) {
     std::uint32_t len = 0;
     JF_RETURN_NOT_OK(ReadU32LE(&len));
-    if (pos_ + len > buf_.size()) {
+    if (len > remaining()) {
       return Status::InvalidArgument("compiled artifact: truncated string (want ", len, " bytes, have ",
                                      buf_.size() - pos_, ")");
     }
@@ -127,7 +127,8 @@ class ArtifactReader {
   }
 
   Status ReadBytesView(std::size_t n, std::string_view* out) {
-    if (pos_ + n > buf_.size()) {
+    // Not `pos_ + n > size`: n comes from the input and the sum may wrap around.
+    if (n > remaining()) {
       return Status::InvalidArgument("compiled artifact: truncated blob (want ", n, " bytes, have ", buf_.size() - pos_,
                                      ")");
     }
@@ -254,10 +255,20 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   if (out_header->mode == ArtifactMode::kSingle && num_entries != 1) {
     return Status::InvalidArgument("compiled artifact: single-mode artifact with num_entries=", num_entries);
   }
+  // Every entry takes a byte; check before allocating for a corrupted count.
+  if (num_entries > r.remaining()) {
+    return Status::InvalidArgument("compiled artifact: truncated (", num_entries, " entries announced, ", r.remaining(),
+                                   " bytes left)");
+  }
   out_header->per_entry_ret_types.resize(num_entries);
   for (std::uint32_t i = 0; i < num_entries; ++i) {
     std::uint8_t rt_byte = 0;
     JF_RETURN_NOT_OK(r.ReadU8(&rt_byte));
+    if (rt_byte < static_cast<std::uint8_t>(ValueType::kVoid) ||
+        rt_byte > static_cast<std::uint8_t>(ValueType::kStringList)) {
+      return Status::InvalidArgument("compiled artifact: unknown return type byte ", static_cast<int>(rt_byte),
+                                     " for entry ", i);
+    }
     out_header->per_entry_ret_types[i] = static_cast<ValueType>(rt_byte);
   }
 
@@ -268,7 +279,6 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   std::uint32_t ext_count = 0;
   JF_RETURN_NOT_OK(r.ReadU32LE(&ext_count));
   out_header->extensions.clear();
-  out_header->extensions.reserve(ext_count);
   for (std::uint32_t i = 0; i < ext_count; ++i) {
     ArtifactExtension ext;
     JF_RETURN_NOT_OK(r.ReadU32LE(&ext.tag));
-- 
2.43.0


From 03a6b68e9d605464a3714af7ae965b6e3af1735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 11/15] fix: the arena lost a chunk or an object when its
 bookkeeping could not grow

When the chunk list or the finalizer list could not be extended the
exception propagated, but the fresh chunk was never freed and the object
already constructed was never destroyed.
---
 include/arena.h | 8 +++++++-
 src/arena.cc    | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/arena.h b/include/arena.h
index 3fb7da6..a5de771 100644
--- a/include/arena.h
+++ b/include/arena.h
@@ -86,7 +86,13 @@ class Arena {
     }
     T* obj = ::new (mem) T(std::forward<Args>(args)...);
     if constexpr (!std::is_trivially_destructible_v<T>) {
-      finalizers_.emplace_back(obj, &DestroyImpl<T>);
+      try {
+        finalizers_.emplace_back(obj, &DestroyImpl<T>);
+      } catch (...) {
+        // Without a record nobody would run ~T() anymore.
+        obj->~T();
+        throw;
+      }
     }
     return obj;
   }
diff --git a/src/arena.cc b/src/arena.cc
index 8bfefa0..dcf1e18 100644
--- a/src/arena.cc
+++ b/src/arena.cc
@@ -95,7 +95,13 @@ Status Arena::AllocateChunk(size_t size) {
   if (!status.ok()) {
     return status;
   }
-  chunks_.emplace_back(out, size);
+  try {
+    chunks_.emplace_back(out, size);
+  } catch (...) {
+    // The list could not grow: the buffer is not owned by anyone yet.
+    Free(out);
+    throw;
+  }
   avail_buf_ = out;
   avail_bytes_ = size;  // left-over bytes in the previous chunk cannot be used anymore.
   total_bytes_ += size;
-- 
2.43.0


From 5d01c0c295c88e482c0a545dba51eba86d2564ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 12/15] fix: a number too large for its type threw out of
 Compile

std::stoull, std::stod and std::stof report such literals by throwing, which
ended a process that only checks statuses and leaked the scanner. They are
parse errors now.
---
 athena/token.cc | 9 ++++++++-
 athena/token.ll | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/athena/token.cc b/athena/token.cc
index 7eae7a9..a367927 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -2610,7 +2610,14 @@ jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
   yylex_init(&scanner);
   auto *buffer = yy_scan_string(code.c_str(), scanner);
   athena::Parser parser(scanner, *this);
-  int res = parser();
+  int res = 0;
+  try {
+    res = parser();
+  } catch (const std::out_of_range &) {
+    // A number that does not fit: thrown by std::stoull, std::stod or std::stof.
+    parser.error(location_, "numeric literal out of range");
+    res = 1;
+  }
   yy_delete_buffer(buffer, scanner);
   yylex_destroy(scanner);
   if (res != 0) {
diff --git a/athena/token.ll b/athena/token.ll
index 3c19b09..85691ae 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -186,7 +186,14 @@ jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
   yylex_init(&scanner);
   auto *buffer = yy_scan_string(code.c_str(), scanner);
   athena::Parser parser(scanner, *this);
-  int res = parser();
+  int res = 0;
+  try {
+    res = parser();
+  } catch (const std::out_of_range &) {
+    // A number that does not fit: thrown by std::stoull, std::stod or std::stof.
+    parser.error(location_, "numeric literal out of range");
+    res = 1;
+  }
   yy_delete_buffer(buffer, scanner);
   yylex_destroy(scanner);
   if (res != 0) {
-- 
2.43.0


From 7fd860376b37c2f249f9684895bc0a09642b9038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 13/15] fix: built-ins wrote through null when the arena had no
 memory

Arena::Allocate returns nullptr when the system refuses memory. Every built-in
that allocates its result now reports that as an error of the execution and
returns an empty result. Three built-ins derive a size from a second evaluation
of an argument, which may have failed while the first did not; they check it.
---
 src/function/function_init.h         | 15 ++++++
 src/function/list_arithmetic.cc      | 75 ++++++++++++++++++++++++++++
 src/function/list_basic.cc           | 39 +++++++++++++++
 src/function/list_comparison.cc      | 41 +++++++++++++++
 src/function/list_group.cc           | 47 +++++++++++++++++
 src/function/list_indexing.cc        | 36 ++++++++++++-
 src/function/string_function_init.cc |  6 +++
 7 files changed, 257 insertions(+), 2 deletions(-)

diff --git a/src/function/function_init.h b/src/function/function_init.h
index 9a6ce8b..a57e074 100644
--- a/src/function/function_init.h
+++ b/src/function/function_init.h
@@ -4,11 +4,26 @@
  * @Last Modified by: victorika
  * @Last Modified time: 2026-02-09 15:11:32
  */
+#include <cstdint>
+#include <string>
+#include "exec_options.h"
 #include "function_registry.h"
 #include "status.h"
 
 namespace jitfusion {
 
+// Arena::Allocate returns nullptr when the system refuses memory (and for an
+// empty request, which is legal). Built-ins call this right after allocating
+// their result: a refusal becomes an error of the execution instead of a
+// write through a null pointer.
+inline bool AllocationFailed(ExecContext *exec_ctx, const void *data, uint64_t elements) {
+  if (data != nullptr || elements == 0) {
+    return false;
+  }
+  exec_ctx->AddError("out of memory: cannot allocate a result of " + std::to_string(elements) + " elements");
+  return true;
+}
+
 Status InitListArithmeticFunc(FunctionRegistry *reg);
 Status InitListComparisonFunc(FunctionRegistry *reg);
 Status InitListAggregationFunc(FunctionRegistry *reg);
diff --git a/src/function/list_arithmetic.cc b/src/function/list_arithmetic.cc
index 33a5df9..6c68251 100644
--- a/src/function/list_arithmetic.cc
+++ b/src/function/list_arithmetic.cc
@@ -27,6 +27,9 @@ ListType ListAdd(ListType a, typename ListType::CElementType b, void *exec_conte
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (uint32_t i = 0; i < a.len; i++) {
     result.data[i] = a.data[i] + b;
@@ -46,6 +49,9 @@ ListType ListAddList(ListType a, ListType b, void *exec_context) {
   result.len = a.len;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((result.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, result.len)) {
+    return {nullptr, 0};
+  }
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ListType::CElementType, xs::default_arch>;
   constexpr std::size_t kBatchSize = batch_type::size;
@@ -73,6 +79,9 @@ ListType ListSub(ListType a, typename ListType::CElementType b, void *exec_conte
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (uint32_t i = 0; i < a.len; i++) {
     result.data[i] = a.data[i] - b;
@@ -92,6 +101,9 @@ ListType ListSubList(ListType a, ListType b, void *exec_context) {
   result.len = a.len;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((result.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, result.len)) {
+    return {nullptr, 0};
+  }
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ListType::CElementType, xs::default_arch>;
   constexpr std::size_t kBatchSize = batch_type::size;
@@ -119,6 +131,9 @@ ListType ListMul(ListType a, typename ListType::CElementType b, void *exec_conte
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (uint32_t i = 0; i < a.len; i++) {
     result.data[i] = a.data[i] * b;
@@ -138,6 +153,9 @@ ListType ListMulList(ListType a, ListType b, void *exec_context) {
   result.len = a.len;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((result.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, result.len)) {
+    return {nullptr, 0};
+  }
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ListType::CElementType, xs::default_arch>;
   constexpr std::size_t kBatchSize = batch_type::size;
@@ -165,6 +183,9 @@ ListType ListDiv(ListType a, typename ListType::CElementType b, void *exec_conte
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (uint32_t i = 0; i < a.len; i++) {
     result.data[i] = a.data[i] / b;
@@ -184,6 +205,9 @@ ListType ListDivList(ListType a, ListType b, void *exec_context) {
   result.len = a.len;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((result.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, result.len)) {
+    return {nullptr, 0};
+  }
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ListType::CElementType, xs::default_arch>;
   constexpr std::size_t kBatchSize = batch_type::size;
@@ -211,6 +235,9 @@ ListType ListMod(ListType a, typename ListType::CElementType b, void *exec_conte
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (uint32_t i = 0; i < a.len; i++) {
     result.data[i] = a.data[i] % b;
@@ -230,6 +257,9 @@ ListType ListModList(ListType a, ListType b, void *exec_context) {
   result.len = a.len;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((result.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, result.len)) {
+    return {nullptr, 0};
+  }
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ListType::CElementType, xs::default_arch>;
   constexpr std::size_t kBatchSize = batch_type::size;
@@ -257,6 +287,9 @@ ListType ListBitwiseAnd(ListType a, typename ListType::CElementType b, void *exe
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (uint32_t i = 0; i < a.len; i++) {
     result.data[i] = a.data[i] & b;
@@ -276,6 +309,9 @@ ListType ListBitwiseAndList(ListType a, ListType b, void *exec_context) {
   result.len = a.len;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((result.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, result.len)) {
+    return {nullptr, 0};
+  }
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ListType::CElementType, xs::default_arch>;
   constexpr std::size_t kBatchSize = batch_type::size;
@@ -303,6 +339,9 @@ ListType ListBitwiseOr(ListType a, typename ListType::CElementType b, void *exec
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (uint32_t i = 0; i < a.len; i++) {
     result.data[i] = a.data[i] | b;
@@ -322,6 +361,9 @@ ListType ListBitwiseOrList(ListType a, ListType b, void *exec_context) {
   result.len = a.len;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((result.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, result.len)) {
+    return {nullptr, 0};
+  }
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ListType::CElementType, xs::default_arch>;
   constexpr std::size_t kBatchSize = batch_type::size;
@@ -349,6 +391,9 @@ ListType ListBitwiseXor(ListType a, typename ListType::CElementType b, void *exe
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (uint32_t i = 0; i < a.len; i++) {
     result.data[i] = a.data[i] ^ b;
@@ -368,6 +413,9 @@ ListType ListBitwiseXorList(ListType a, ListType b, void *exec_context) {
   result.len = a.len;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((result.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, result.len)) {
+    return {nullptr, 0};
+  }
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ListType::CElementType, xs::default_arch>;
   constexpr std::size_t kBatchSize = batch_type::size;
@@ -395,6 +443,9 @@ ResultType ListExp(ListType a, void *exec_context) {
   ResultType result;
   result.data = reinterpret_cast<typename ResultType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ResultType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ResultType::CElementType, xs::default_arch>;
@@ -422,6 +473,9 @@ ResultType ListLog(ListType a, void *exec_context) {
   ResultType result;
   result.data = reinterpret_cast<typename ResultType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ResultType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ResultType::CElementType, xs::default_arch>;
@@ -449,6 +503,9 @@ ResultType ListLog2(ListType a, void *exec_context) {
   ResultType result;
   result.data = reinterpret_cast<typename ResultType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ResultType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ResultType::CElementType, xs::default_arch>;
@@ -476,6 +533,9 @@ ResultType ListLog10(ListType a, void *exec_context) {
   ResultType result;
   result.data = reinterpret_cast<typename ResultType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ResultType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ResultType::CElementType, xs::default_arch>;
@@ -503,6 +563,9 @@ ListType ListCeil(ListType a, void *exec_context) {
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ListType::CElementType, xs::default_arch>;
@@ -530,6 +593,9 @@ ListType ListFloor(ListType a, void *exec_context) {
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ListType::CElementType, xs::default_arch>;
@@ -557,6 +623,9 @@ ListType ListRound(ListType a, void *exec_context) {
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ListType::CElementType, xs::default_arch>;
@@ -584,6 +653,9 @@ ListType ListMin(ListType a, typename ListType::CElementType b, void *exec_conte
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ListType::CElementType, xs::default_arch>;
@@ -612,6 +684,9 @@ ListType ListMax(ListType a, typename ListType::CElementType b, void *exec_conte
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
 #ifdef HAS_XSIMD
   using batch_type = xs::batch<typename ListType::CElementType, xs::default_arch>;
diff --git a/src/function/list_basic.cc b/src/function/list_basic.cc
index 3f67f49..48a0fb8 100644
--- a/src/function/list_basic.cc
+++ b/src/function/list_basic.cc
@@ -30,6 +30,9 @@ ListType ListConcat(ListType a, ListType b, void *exec_context) {
   result.len = a.len + b.len;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate(result.len * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, result.len)) {
+    return {nullptr, 0};
+  }
   memcpy(result.data, a.data, a.len * sizeof(typename ListType::CElementType));
   memcpy(result.data + a.len, b.data, b.len * sizeof(typename ListType::CElementType));
   return result;
@@ -69,6 +72,9 @@ inline ListType SortAsc(ListType a, void *exec_context) {
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   memcpy(result.data, a.data, a.len * sizeof(typename ListType::CElementType));
   std::sort(result.data, result.data + result.len);
@@ -81,6 +87,9 @@ inline ListType SortDesc(ListType a, void *exec_context) {
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   memcpy(result.data, a.data, a.len * sizeof(typename ListType::CElementType));
   std::sort(result.data, result.data + result.len, std::greater<typename ListType::CElementType>());
@@ -119,6 +128,9 @@ OutputListType ListCastNumericToNumeric(InputListType a, void *exec_context) {
   OutputListType result;
   result.data = reinterpret_cast<typename OutputListType::CElementType *>(
       exec_ctx->arena.Allocate(a.len * sizeof(typename OutputListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (uint32_t i = 0; i < a.len; i++) {
     result.data[i] = static_cast<typename OutputListType::CElementType>(a.data[i]);  // NOLINT
@@ -131,12 +143,18 @@ StringListStruct ListCastNumericToString(InputListType a, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
   StringListStruct result;
   result.data = reinterpret_cast<StringStruct *>(exec_ctx->arena.Allocate(a.len * sizeof(StringStruct)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   char buf[64];
   for (uint32_t i = 0; i < a.len; i++) {
     auto [ptr, ec] = std::to_chars(buf, buf + sizeof(buf), a.data[i]);
     int written = static_cast<int>(ptr - buf);
     result.data[i].data = reinterpret_cast<char *>(exec_ctx->arena.Allocate(written));
+    if (AllocationFailed(exec_ctx, result.data[i].data, written)) {
+      return {nullptr, 0};
+    }
     memcpy(result.data[i].data, buf, written);
     result.data[i].len = written;
   }
@@ -149,6 +167,9 @@ OutputListType ListCastStringToNumeric(StringListStruct a, void *exec_context) {
   OutputListType result;
   result.data = reinterpret_cast<typename OutputListType::CElementType *>(
       exec_ctx->arena.Allocate(a.len * sizeof(typename OutputListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   static_assert(!std::is_floating_point_v<typename OutputListType::CElementType>,
                 "C++17 std::from_chars does not support floating point types");
@@ -168,6 +189,9 @@ ListType Unique(ListType a, void *exec_context) {
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate(a.len * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   std::unordered_set<typename ListType::CElementType> seen;
   seen.reserve(a.len);
   uint32_t idx = 0;
@@ -204,7 +228,13 @@ inline StringListStruct CrossJoinString(StringListStruct a, StringListStruct b,
   uint64_t total_bytes = (a_bytes * b.len) + (b_bytes * a.len) + (total_elems * sep.len);
 
   result.data = reinterpret_cast<StringStruct *>(exec_ctx->arena.Allocate(total_elems * sizeof(StringStruct)));
+  if (AllocationFailed(exec_ctx, result.data, total_elems)) {
+    return {nullptr, 0};
+  }
   char *buf = total_bytes == 0 ? nullptr : reinterpret_cast<char *>(exec_ctx->arena.Allocate(total_bytes));
+  if (AllocationFailed(exec_ctx, buf, total_bytes)) {
+    return {nullptr, 0};
+  }
 
   char *cursor = buf;
   uint32_t out_idx = 0;
@@ -237,6 +267,9 @@ inline StringListStruct UniqueString(StringListStruct a, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
   StringListStruct result;
   result.data = reinterpret_cast<StringStruct *>(exec_ctx->arena.Allocate(a.len * sizeof(StringStruct)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   std::unordered_set<std::string_view> seen;
   seen.reserve(a.len);
   uint32_t idx = 0;
@@ -283,7 +316,13 @@ inline StringListStruct ZipConcatString(StringListStruct a, StringListStruct b,
   total_bytes += static_cast<uint64_t>(a.len) * sep.len;
 
   result.data = reinterpret_cast<StringStruct *>(exec_ctx->arena.Allocate(a.len * sizeof(StringStruct)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   char *buf = total_bytes == 0 ? nullptr : reinterpret_cast<char *>(exec_ctx->arena.Allocate(total_bytes));
+  if (AllocationFailed(exec_ctx, buf, total_bytes)) {
+    return {nullptr, 0};
+  }
 
   char *cursor = buf;
   for (uint32_t i = 0; i < a.len; ++i) {
diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index e485395..585f3a0 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -4,6 +4,7 @@
  * @Last Modified by: victorika
  * @Last Modified time: 2026-05-11 16:35:09
  */
+#include <algorithm>
 #include <cstring>
 #include "codegen/codegen.h"
 #include "exec_engine.h"
@@ -30,6 +31,9 @@ ListType IfLarge(ListType a, typename ListType::CElementType cmp_value, typename
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (std::size_t i = 0; i < a.len; i++) {
     result.data[i] = a.data[i] > cmp_value ? target_value : a.data[i];
@@ -44,6 +48,9 @@ ListType IfLargeEqual(ListType a, typename ListType::CElementType cmp_value,
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (std::size_t i = 0; i < a.len; i++) {
     result.data[i] = a.data[i] >= cmp_value ? target_value : a.data[i];
@@ -58,6 +65,9 @@ ListType IfEqual(ListType a, typename ListType::CElementType cmp_value, typename
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (std::size_t i = 0; i < a.len; i++) {
     result.data[i] = a.data[i] == cmp_value ? target_value : a.data[i];
@@ -72,6 +82,9 @@ ListType IfLess(ListType a, typename ListType::CElementType cmp_value, typename
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (std::size_t i = 0; i < a.len; i++) {
     result.data[i] = a.data[i] < cmp_value ? target_value : a.data[i];
@@ -86,6 +99,9 @@ ListType IfLessEqual(ListType a, typename ListType::CElementType cmp_value,
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (std::size_t i = 0; i < a.len; i++) {
     result.data[i] = a.data[i] <= cmp_value ? target_value : a.data[i];
@@ -100,6 +116,9 @@ ListType IfNotEqual(ListType a, typename ListType::CElementType cmp_value, typen
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((a.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   result.len = a.len;
   for (std::size_t i = 0; i < a.len; i++) {
     result.data[i] = a.data[i] != cmp_value ? target_value : a.data[i];
@@ -119,6 +138,9 @@ ListType IfByBitmapLLRB(U8ListStruct bitmap, ListType lhs, typename ListType::CE
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((lhs.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, lhs.len)) {
+    return {nullptr, 0};
+  }
   result.len = lhs.len;
   uint32_t loop_len = result.len & (~7U);
   uint32_t i = 0;
@@ -167,6 +189,9 @@ ListType IfByBitmapLBRL(U8ListStruct bitmap, typename ListType::CElementType lhs
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((rhs.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, rhs.len)) {
+    return {nullptr, 0};
+  }
   result.len = rhs.len;
   uint32_t loop_len = result.len & (~7U);
   uint32_t i = 0;
@@ -219,6 +244,9 @@ ListType IfByBitmapLLRL(U8ListStruct bitmap, ListType lhs, ListType rhs, void *e
   ListType result;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
       exec_ctx->arena.Allocate((lhs.len) * sizeof(typename ListType::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, lhs.len)) {
+    return {nullptr, 0};
+  }
   result.len = lhs.len;
   uint32_t loop_len = result.len & (~7U);
   uint32_t i = 0;
@@ -263,6 +291,9 @@ U8ListStruct GenBitmap(ListType a, typename ListType::CElementType b, void *exec
   result.len = (a.len + 7) / 8;
   result.data = reinterpret_cast<U8ListStruct::CElementType *>(
       exec_ctx->arena.Allocate(result.len * sizeof(U8ListStruct::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, result.len)) {
+    return {nullptr, 0};
+  }
   if (a.len == 0) {
     return result;
   }
@@ -325,6 +356,9 @@ U8ListStruct GenBitmapList(ListType a, ListType b, void *exec_context) {
   result.len = (len + 7) / 8;
   result.data = reinterpret_cast<U8ListStruct::CElementType *>(
       exec_ctx->arena.Allocate(result.len * sizeof(U8ListStruct::CElementType)));
+  if (AllocationFailed(exec_ctx, result.data, result.len)) {
+    return {nullptr, 0};
+  }
   if (len == 0) {
     return result;
   }
@@ -383,8 +417,15 @@ ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void
     exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to list len");
     return {nullptr, 0};
   }
+  if (bits_cnt == 0 && std::any_of(bitmap.data, bitmap.data + bitmap.len, [](uint8_t byte) { return byte != 0; })) {
+    exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to bits_cnt");
+    return {nullptr, 0};
+  }
   ListType result;
   result.data = reinterpret_cast<T *>(exec_ctx->arena.Allocate((bits_cnt + 1) * sizeof(T)));
+  if (AllocationFailed(exec_ctx, result.data, bits_cnt + 1)) {
+    return {nullptr, 0};
+  }
   result.len = bits_cnt;
 
   uint32_t cur = 0;
diff --git a/src/function/list_group.cc b/src/function/list_group.cc
index c577528..a46de48 100644
--- a/src/function/list_group.cc
+++ b/src/function/list_group.cc
@@ -32,6 +32,9 @@ U32ListStruct GroupIndex(KList keys, void *exec_context) {
   U32ListStruct result;
   result.len = keys.len;
   result.data = reinterpret_cast<uint32_t *>(exec_ctx->arena.Allocate(sizeof(uint32_t) * keys.len));
+  if (AllocationFailed(exec_ctx, result.data, keys.len)) {
+    return {nullptr, 0};
+  }
 
   std::unordered_map<typename KList::CElementType, uint32_t> table;
   table.reserve(keys.len);
@@ -51,6 +54,9 @@ U32ListStruct GroupIndexString(StringListStruct keys, void *exec_context) {
   U32ListStruct result;
   result.len = keys.len;
   result.data = reinterpret_cast<uint32_t *>(exec_ctx->arena.Allocate(sizeof(uint32_t) * keys.len));
+  if (AllocationFailed(exec_ctx, result.data, keys.len)) {
+    return {nullptr, 0};
+  }
 
   std::unordered_map<std::string_view, uint32_t> table;
   table.reserve(static_cast<size_t>(keys.len));
@@ -77,6 +83,17 @@ uint32_t GroupCount(U32ListStruct group_index) {
   return max_id + 1;
 }
 
+// `distinct` is derived from another evaluation of the group index; when that
+// one could not be computed there are no slots to write the groups to.
+bool GroupsMissing(const char *name, U32ListStruct group_index, uint32_t distinct, ExecContext *exec_ctx) {
+  if (distinct != 0 || group_index.len == 0) {
+    return false;
+  }
+  exec_ctx->AddError(std::string(name) + ": distinct is 0, but there are " + std::to_string(group_index.len) +
+                     " group ids");
+  return true;
+}
+
 template <typename KList>
 KList GroupKeys(KList keys, U32ListStruct group_index, uint32_t distinct, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
@@ -85,9 +102,15 @@ KList GroupKeys(KList keys, U32ListStruct group_index, uint32_t distinct, void *
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (GroupsMissing("GroupKeys", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   KList result;
   result.data = reinterpret_cast<typename KList::CElementType *>(
       exec_ctx->arena.Allocate(sizeof(typename KList::CElementType) * distinct));
+  if (AllocationFailed(exec_ctx, result.data, distinct)) {
+    return {nullptr, 0};
+  }
   uint32_t filled = 0;
   for (uint32_t i = 0; i < keys.len; ++i) {
     if (group_index.data[i] == filled) {
@@ -107,9 +130,15 @@ AccList GroupSum(VList values, U32ListStruct group_index, uint32_t distinct, voi
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (GroupsMissing("GroupSum", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   AccList result;
   result.len = distinct;
   result.data = reinterpret_cast<Acc *>(exec_ctx->arena.Allocate(sizeof(Acc) * distinct));
+  if (AllocationFailed(exec_ctx, result.data, distinct)) {
+    return {nullptr, 0};
+  }
   std::memset(result.data, 0, sizeof(Acc) * distinct);
   for (uint32_t i = 0; i < values.len; ++i) {
     result.data[group_index.data[i]] += values.data[i];
@@ -126,9 +155,15 @@ VList GroupMax(VList values, U32ListStruct group_index, uint32_t distinct, void
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (GroupsMissing("GroupMax", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
+  if (AllocationFailed(exec_ctx, result.data, distinct)) {
+    return {nullptr, 0};
+  }
   V seed = std::numeric_limits<V>::lowest();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
@@ -146,9 +181,15 @@ VList GroupMin(VList values, U32ListStruct group_index, uint32_t distinct, void
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (GroupsMissing("GroupMin", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
+  if (AllocationFailed(exec_ctx, result.data, distinct)) {
+    return {nullptr, 0};
+  }
   V seed = std::numeric_limits<V>::max();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
@@ -165,9 +206,15 @@ F64ListStruct GroupAvg(VList values, U32ListStruct group_index, uint32_t distinc
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (GroupsMissing("GroupAvg", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   F64ListStruct result;
   result.len = distinct;
   result.data = reinterpret_cast<double *>(exec_ctx->arena.Allocate(sizeof(double) * distinct));
+  if (AllocationFailed(exec_ctx, result.data, distinct)) {
+    return {nullptr, 0};
+  }
   std::memset(result.data, 0, sizeof(double) * distinct);
   std::vector<uint32_t> local_counts(distinct, 0);
   for (uint32_t i = 0; i < values.len; ++i) {
diff --git a/src/function/list_indexing.cc b/src/function/list_indexing.cc
index f92262c..85ba8bb 100644
--- a/src/function/list_indexing.cc
+++ b/src/function/list_indexing.cc
@@ -35,7 +35,11 @@ void *BuildLookupTableInt(KList b, void *exec_context) {
   for (uint32_t j = 0; j < b.len; ++j) {
     seed.try_emplace(b.data[j], j);
   }
-  return exec_ctx->arena.Create<IntLookupTable<KList>>(std::move(seed));
+  auto *table = exec_ctx->arena.Create<IntLookupTable<KList>>(std::move(seed));
+  if (table == nullptr) {
+    exec_ctx->AddError("out of memory: cannot allocate a lookup table");
+  }
+  return table;
 }
 
 void *BuildLookupTableString(StringListStruct b, void *exec_context) {
@@ -46,17 +50,27 @@ void *BuildLookupTableString(StringListStruct b, void *exec_context) {
     std::string_view sv(b.data[j].data, b.data[j].len);
     seed.try_emplace(sv, j);
   }
-  return exec_ctx->arena.Create<StringLookupTable>(std::move(seed));
+  auto *table = exec_ctx->arena.Create<StringLookupTable>(std::move(seed));
+  if (table == nullptr) {
+    exec_ctx->AddError("out of memory: cannot allocate a lookup table");
+  }
+  return table;
 }
 
 template <typename KList>
 U32ListStruct LookupTableInt(KList a, void *table_ptr, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
   const auto *table = reinterpret_cast<const IntLookupTable<KList> *>(table_ptr);
+  if (table == nullptr) {
+    return {nullptr, 0};
+  }
 
   U32ListStruct result;
   result.len = a.len;
   result.data = reinterpret_cast<uint32_t *>(exec_ctx->arena.Allocate(sizeof(uint32_t) * a.len));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   for (uint32_t i = 0; i < a.len; ++i) {
     auto it = table->find(a.data[i]);
     result.data[i] = (it == table->end()) ? kLookupMiss : it->second;
@@ -67,10 +81,16 @@ U32ListStruct LookupTableInt(KList a, void *table_ptr, void *exec_context) {
 U32ListStruct LookupTableString(StringListStruct a, void *table_ptr, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
   const auto *table = reinterpret_cast<const StringLookupTable *>(table_ptr);
+  if (table == nullptr) {
+    return {nullptr, 0};
+  }
 
   U32ListStruct result;
   result.len = a.len;
   result.data = reinterpret_cast<uint32_t *>(exec_ctx->arena.Allocate(sizeof(uint32_t) * a.len));
+  if (AllocationFailed(exec_ctx, result.data, a.len)) {
+    return {nullptr, 0};
+  }
   for (uint32_t i = 0; i < a.len; ++i) {
     std::string_view sv(a.data[i].data, a.data[i].len);
     auto it = table->find(sv);
@@ -201,6 +221,9 @@ U32ListStruct ListCompactPositions(U32ListStruct raw, void *exec_context) {
   U32ListStruct result;
   result.len = hits;
   result.data = reinterpret_cast<uint32_t *>(exec_ctx->arena.Allocate(sizeof(uint32_t) * hits));
+  if (AllocationFailed(exec_ctx, result.data, hits)) {
+    return {nullptr, 0};
+  }
 
   uint32_t out = 0;
   for (uint32_t i = 0; i < raw.len; ++i) {
@@ -222,6 +245,9 @@ U32ListStruct ListCompactIndex(U32ListStruct raw, void *exec_context) {
   U32ListStruct result;
   result.len = hits;
   result.data = reinterpret_cast<uint32_t *>(exec_ctx->arena.Allocate(sizeof(uint32_t) * hits));
+  if (AllocationFailed(exec_ctx, result.data, hits)) {
+    return {nullptr, 0};
+  }
 
   uint32_t out = 0;
   for (uint32_t i = 0; i < raw.len; ++i) {
@@ -239,6 +265,9 @@ VList ListGather(VList values, U32ListStruct idx, typename VList::CElementType d
   VList result;
   result.len = idx.len;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * idx.len));
+  if (AllocationFailed(exec_ctx, result.data, idx.len)) {
+    return {nullptr, 0};
+  }
 
   for (uint32_t k = 0; k < idx.len; ++k) {
     uint32_t j = idx.data[k];
@@ -255,6 +284,9 @@ U32ListStruct Bucketize(ListType values, ListType boundaries, void *exec_context
   U32ListStruct result;
   result.len = values.len;
   result.data = reinterpret_cast<uint32_t *>(exec_ctx->arena.Allocate(sizeof(uint32_t) * values.len));
+  if (AllocationFailed(exec_ctx, result.data, values.len)) {
+    return {nullptr, 0};
+  }
 
   const auto *bbegin = boundaries.data;
   const uint32_t bn = boundaries.len;
diff --git a/src/function/string_function_init.cc b/src/function/string_function_init.cc
index 86b0be7..9c3c3a0 100644
--- a/src/function/string_function_init.cc
+++ b/src/function/string_function_init.cc
@@ -23,6 +23,9 @@ inline StringStruct StringConcat(StringStruct a, StringStruct b, void *exec_cont
   StringStruct result;
   result.len = a.len + b.len;
   result.data = reinterpret_cast<char *>(exec_ctx->arena.Allocate(result.len * sizeof(char)));
+  if (AllocationFailed(exec_ctx, result.data, result.len)) {
+    return {nullptr, 0};
+  }
   memcpy(result.data, a.data, a.len * sizeof(char));
   memcpy(result.data + a.len, b.data, b.len * sizeof(char));
   return result;
@@ -48,6 +51,9 @@ inline StringStruct CastNumericToString(T value, void *exec_context) {
   int written = static_cast<int>(ptr - buf);
   StringStruct result;
   result.data = reinterpret_cast<char *>(exec_ctx->arena.Allocate(written));
+  if (AllocationFailed(exec_ctx, result.data, written)) {
+    return {nullptr, 0};
+  }
   memcpy(result.data, buf, written);
   result.len = written;
   return result;
-- 
2.43.0


From 04e8d777798b0aed26090792fd1639c26be43907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 14/15] fix: an override kept the return type of the function
 it replaced

---
 src/function_registry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/function_registry.cc b/src/function_registry.cc
index d706377..1ca77c4 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -111,7 +111,9 @@ Status FunctionRegistry::RegisterFunc(const FunctionSignature& func_sign, Functi
     return Status::InvalidArgument("function ", func_sign.ToString(),
                                    " is already registered; pass allow_override=true to overwrite");
   }
-  signature2funcstruct_[func_sign] = std::move(func_struct);
+  // The return type is part of the key but not of its identity: an override may change it.
+  signature2funcstruct_.erase(func_sign);
+  signature2funcstruct_.emplace(func_sign, std::move(func_struct));
   return Status::OK();
 }
 
-- 
2.43.0


From 1ec133b6ea8eb599cc53c610098fba96cc25a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 15/15] fix: a refused function with context left its short
 signature registered

---
 src/function_registry.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/function_registry.cc b/src/function_registry.cc
index 1ca77c4..6b3807b 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -145,6 +145,14 @@ Status FunctionRegistry::RegisterReadOnlyCFuncWithExecCtx(const FunctionSignatur
   if (nullptr == c_func_ptr) {
     return Status::InvalidArgument("c_func_ptr is nullptr");
   }
+  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
+  legacy_params.emplace_back(ValueType::kPtr);
+  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
+  if (!allow_override && signature2funcstruct_.find(legacy_sign) != signature2funcstruct_.end()) {
+    // Refused before anything is registered: both signatures or neither.
+    return Status::InvalidArgument("function ", legacy_sign.ToString(),
+                                   " is already registered; pass allow_override=true to overwrite");
+  }
   // Modern user-visible signature: no trailing kPtr; codegen auto-injects
   // exec_ctx when emitting the call so the C ABI (N+1 args) is preserved.
   {
@@ -159,9 +167,6 @@ Status FunctionRegistry::RegisterReadOnlyCFuncWithExecCtx(const FunctionSignatur
   // like the old RegisterReadOnlyCFunc registration. Existing callers
   // (AST builders that still create an ExecContextNode tail arg, or
   // athena DSL code using `EXEC_CTX`) keep working unchanged.
-  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
-  legacy_params.emplace_back(ValueType::kPtr);
-  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
   FunctionStructure legacy_struct;
   legacy_struct.func_type = FunctionType::kCFunc;
   legacy_struct.c_func_ptr = c_func_ptr;
@@ -199,6 +204,14 @@ Status FunctionRegistry::RegisterCommutativeCFuncWithExecCtx(const FunctionSigna
   if (nullptr == c_func_ptr) {
     return Status::InvalidArgument("c_func_ptr is nullptr");
   }
+  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
+  legacy_params.emplace_back(ValueType::kPtr);
+  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
+  if (!allow_override && signature2funcstruct_.find(legacy_sign) != signature2funcstruct_.end()) {
+    // Refused before anything is registered: both signatures or neither.
+    return Status::InvalidArgument("function ", legacy_sign.ToString(),
+                                   " is already registered; pass allow_override=true to overwrite");
+  }
   // Modern user-visible signature: no trailing kPtr; codegen auto-injects.
   {
     FunctionStructure func_struct;
@@ -211,9 +224,6 @@ Status FunctionRegistry::RegisterCommutativeCFuncWithExecCtx(const FunctionSigna
   // Legacy compatibility signature: with trailing kPtr; identical to the
   // old RegisterCommutativeCFunc registration so existing AST/DSL code
   // that still passes ExecContextNode keeps resolving.
-  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
-  legacy_params.emplace_back(ValueType::kPtr);
-  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
   FunctionStructure legacy_struct;
   legacy_struct.func_type = FunctionType::kCFunc;
   legacy_struct.c_func_ptr = c_func_ptr;
-- 
2.43.0

