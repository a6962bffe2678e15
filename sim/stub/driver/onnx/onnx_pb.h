#pragma once
namespace onnx { class TensorProto; class ModelProto; class ValueInfoProto; class TypeProto; }
