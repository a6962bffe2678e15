#pragma once
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Transforms/DialectConversion.h"
#include "src/Dialect/ONNX/ONNXDimAnalysis.hpp"
namespace onnx_mlir {
const std::string DEVICE_ATTRIBUTE = "device", CPU_DEVICE = "cpu", NNPA_DEVICE = "nnpa", QUANT_ATTRIBUTE = "quantize";
struct ONNXToZHighLoweringConfiguration { static int optReportNNPAUnsupportedOps, reportOnNNPAUnsupportedOps; static bool isDynQuant; };
}
