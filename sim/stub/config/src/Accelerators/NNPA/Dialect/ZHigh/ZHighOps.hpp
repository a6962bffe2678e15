#pragma once
#include "src/Dialect/ONNX/ONNXOps.hpp"
