#pragma once
#include "mlir/IR/BuiltinOps.h"
namespace onnx_mlir { class DimAnalysis { public: explicit DimAnalysis(mlir::ModuleOp) {} void analyze() {} }; }
