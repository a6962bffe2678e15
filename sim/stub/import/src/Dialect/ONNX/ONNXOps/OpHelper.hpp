// Stand-in for the part of the ONNX dialect that importing constants needs.
#pragma once
#include "mlir/IR/Types.h"
namespace mlir {
struct ONNXStringType : Type::TypeBase<ONNXStringType, Type, TypeStorage> {
  using Base::Base;
  static constexpr StringLiteral name = "host.string";
};
} // namespace mlir
