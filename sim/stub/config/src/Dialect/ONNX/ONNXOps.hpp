// Stands in for the generated ONNX dialect: a dialect whose operations are
// known by name only.
#pragma once
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Dialect.h"
#include "mlir/Pass/Pass.h"
namespace mlir {
class ONNXDialect : public Dialect {
public:
  static constexpr llvm::StringLiteral getDialectNamespace() { return llvm::StringLiteral("onnx"); }
  explicit ONNXDialect(MLIRContext *c) : Dialect(getDialectNamespace(), c, TypeID::get<ONNXDialect>()) { allowUnknownOperations(); }
};
#define SIM_OP(NAME, TEXT) struct NAME { static bool classof(Operation *op) { return op->getName().getStringRef() == TEXT; } };
SIM_OP(ONNXEntryPointOp, "onnx.EntryPoint") SIM_OP(ONNXReturnOp, "onnx.Return") SIM_OP(ONNXConstantOp, "onnx.Constant")
#undef SIM_OP
} // namespace mlir
