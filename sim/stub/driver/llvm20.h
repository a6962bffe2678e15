// The repository targets a newer LLVM, whose target registry takes triples
// where this one takes their text.
#pragma once
#include "llvm/MC/TargetRegistry.h"
#include "llvm/TargetParser/Triple.h"
#include <string>
inline std::string simTripleText(const llvm::Triple &t) { return t.str(); }
inline std::string simTripleText(llvm::StringRef t) { return t.str(); }
#define createTargetMachine(T, ...) createTargetMachine(simTripleText(T), __VA_ARGS__)
#define lookupTarget(T, E) lookupTarget(simTripleText(T), E)
#include "llvm/Support/CommandLine.h"
namespace llvm { namespace cl { // with a file system before the environment variable
inline bool ParseCommandLineOptions(int argc, const char *const *argv, StringRef o, raw_ostream *e, std::nullptr_t, const char *env) { return ParseCommandLineOptions(argc, argv, o, e, env, false); }
} }
