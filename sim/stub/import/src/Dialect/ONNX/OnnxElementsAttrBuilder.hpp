// Stand-in: the pool of the simulated dialect.
#pragma once
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"
namespace onnx_mlir {
struct OnnxElementsAttrBuilder : ElementsAttrBuilder { OnnxElementsAttrBuilder(mlir::MLIRContext *context); };
} // namespace onnx_mlir
