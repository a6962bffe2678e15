// Creation of passes that no simulated compilation reaches.
#pragma once
#include "mlir/Pass/Pass.h"
namespace onnx_mlir {
#define SIM_PASS(NAME) template <class... A> std::unique_ptr<mlir::Pass> NAME(A &&...) { return nullptr; }
SIM_PASS(createSimplifyShapeRelatedOpsPass) SIM_PASS(createShapeInferencePass) SIM_PASS(createRemoveSameONNXDimPass) SIM_PASS(createConstPropONNXToONNXPass) SIM_PASS(createONNXHybridTransformPass)
SIM_PASS(createONNXCSEWithNodeNamePass) SIM_PASS(createInstrumentONNXSignaturePass) SIM_PASS(createInstrumentPass)
#undef SIM_PASS
}
