// Functions whose code generator emits invalid IR: programs using them pass validation and fail late, when the module
// is verified or linked.
#include "badir.h"
#include "codegen/codegen.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Module.h"
namespace world {
bool RegisterBadIr(jitfusion::FunctionRegistry& reg) {
  using namespace jitfusion;
  bool ok = reg.RegisterLLVMIntrinicFunc(FunctionSignature("bad_ir", {ValueType::kI32}, ValueType::kI32),
      [](const FunctionSignature&, const std::vector<llvm::Type*>&, const std::vector<llvm::Value*>& v, IRCodeGenContext& c) -> llvm::Value* {
        c.builder.CreateRetVoid();   // a terminator in the middle of a block: rejected by the module verifier
        return v[0];
      }).ok();
  ok = ok && reg.RegisterLLVMIntrinicFunc(FunctionSignature("bad_link", {ValueType::kI32}, ValueType::kI32),
      [](const FunctionSignature&, const std::vector<llvm::Type*>& t, const std::vector<llvm::Value*>& v, IRCodeGenContext& c) -> llvm::Value* {
        auto f = c.module.getOrInsertFunction("jf_sim_symbol_that_exists_nowhere", llvm::FunctionType::get(t[0], {t[0]}, false));
        return c.builder.CreateCall(f, {v[0]});   // verifies, but cannot be linked
      }).ok();
  return ok;
}
}  // namespace world
