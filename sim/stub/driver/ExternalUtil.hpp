#pragma once
#include <map>
#include <string>
namespace onnx_mlir {
static const std::string kExecPath = "/sim/inst/bin/onnx-mlir", kInstPath = "/sim/inst", kDefaultTriple = "x86_64-unknown-linux-gnu", kLrodataScript = "";
static const std::map<std::string, std::string> toolPathMap = {{"instPath", kInstPath}, {"opt", "/sim/llvm/opt"}, {"llc", "/sim/llvm/llc"}, {"onnx-mlir", kExecPath}, {"c", "/sim/usr/cc"}, {"cxx", "/sim/usr/c++"}, {"linker", "/sim/usr/ld"}, {"objcopy", "/sim/usr/objcopy"}, {"ar", "/sim/usr/ar"}, {"jar", "/sim/usr/jar"}, {"defaultTriple", kDefaultTriple}, {"lrodataScript", kLrodataScript}};
}
