// P28: configuration files. The real configuration objects, the passes that
// read and write placements and the pipeline that runs them, over the real MLIR
// and LLVM libraries and a directory whose files are opened, read, written,
// inspected and closed through failing system calls. What a file means is
// decided by a reference evaluation of the rules the harness generated.
#include "simkit.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Transforms/DialectConversion.h"
#include "llvm/Support/JSON.h"
#include "src/Accelerators/NNPA/Compiler/NNPACompilerUtils.hpp"
#include "src/Accelerators/NNPA/Compiler/NNPAJsonConfigObject.hpp"
#include "src/Accelerators/NNPA/Compiler/ZHighDisposableGarbageCollector.hpp"
#include "src/Accelerators/NNPA/Conversion/ONNXToZHigh/DevicePlacementHeuristic.hpp"
#include "src/Accelerators/NNPA/Conversion/ONNXToZHigh/ONNXToZHighCommon.hpp"
#include "src/Accelerators/NNPA/Pass/NNPAPasses.hpp"
#include "src/Compiler/CompilerOptions.hpp"
#include "src/Compiler/JsonConfigObject.hpp"
#include "src/Dialect/ONNX/ONNXOps.hpp"
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <optional>
#include <set>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace mlir;
using namespace onnx_mlir;
using sim::fail;
namespace json = llvm::json;
typedef std::string Str;

// ------------------------------------------------------------ the system calls
static Str S; static std::map<int, bool> g_open; static std::map<int, int> g_bad; static unsigned g_hard, g_eintr, g_cut;
static long said() { struct stat s; return syscall(SYS_fstat, 2, &s) ? 0 : (long)s.st_size; } // what was reported
static bool interrupted(const char *k) { if (g_eintr < 3 && g_cut < 300 && sim::fault(k)) { g_eintr++; g_cut++; errno = EINTR; return true; } g_eintr = 0; return false; }
static bool ours(const char *p) { return sim::active() && sim::inSut() && p && !strncmp(p, S.c_str(), S.size()); }
static int doOpen(int at, const char *p, int fl, int mode) {
  if (!ours(p)) return syscall(SYS_openat, at, p, fl, mode);
  sim::step(1000000); bool wr = (fl & O_ACCMODE) != O_RDONLY;
  if (interrupted("open-interrupted")) return -1;
  if (sim::fault(wr ? "open-for-writing-fails" : "open-for-reading-fails")) { g_hard++; static const int E[] = {EACCES, EMFILE, EIO, ENOSPC, EROFS}; errno = E[sim::choose(wr ? 5 : 3)]; return -1; }
  int fd = syscall(SYS_openat, at, p, fl, mode); if (fd >= 0) { sim::Env e; g_open[fd] = wr; g_bad.erase(fd); } return fd;
}
static bool mine(int fd) { return sim::active() && sim::inSut() && g_open.count(fd); }
static int statFault(const char *p) { if (!ours(p)) return 0; sim::step(1000000); if (sim::fault("stat-fails")) { g_hard++; static const int E[] = {EACCES, EIO}; errno = E[sim::choose(2)]; return -1; } return 0; }
static const char *g_stopped;
extern "C" {
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doOpen(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doOpen(AT_FDCWD, p, fl, m); }
int openat(int at, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doOpen(at, p, fl, m); }
int openat64(int at, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doOpen(at, p, fl, m); }
static ssize_t doRead(int fd, void *b, size_t n, off_t o, bool at) {
  if (mine(fd) && n) {
    sim::step(1000000);
    if (interrupted("read-interrupted")) return -1;
    if (sim::fault("read-fails")) { g_hard++; errno = EIO; return -1; }
    if (n > 1 && sim::fault("read-short")) n = 1 + sim::choose(n > 400 ? 400 : n - 1);
  }
  return at ? syscall(SYS_pread64, fd, b, n, o) : syscall(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return doRead(fd, b, n, 0, false); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return doRead(fd, b, n, o, true); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return doRead(fd, b, n, o, true); }
ssize_t write(int fd, const void *b, size_t n) {
  static unsigned tiny; // an unbuffered stream writes byte by byte: decide for some of them
  if (mine(fd) && n && (n > 2 || g_bad.count(fd) || tiny++ % 64 == 0)) {
    sim::step(1000000);
    if (interrupted("write-interrupted")) return -1;
    if (g_bad.count(fd) || sim::fault("write-fails")) { // the disk is full and stays so
      sim::Env e; bool first = !g_bad.count(fd); if (first) { g_hard++; g_bad[fd] = sim::choose(2) ? EIO : ENOSPC; if (n > 1 && sim::choose(2)) return syscall(SYS_write, fd, b, 1 + sim::choose(n - 1)); }
      errno = g_bad[fd]; return -1;
    }
    if (n > 1 && g_cut < 300 && sim::fault("write-short")) n = 1 + sim::choose(n - 1);
  }
  return syscall(SYS_write, fd, b, n);
}
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  if (fd >= 0 && mine(fd)) { sim::step(1000000); if (sim::fault("map-fails")) { g_hard++; errno = ENOMEM; return MAP_FAILED; } sim::probe("mapped"); }
  return (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o);
}
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { return mmap(a, n, pr, fl, fd, o); }
int stat(const char *p, struct stat *s) { return statFault(p) ? -1 : syscall(SYS_stat, p, s); }
int stat64(const char *p, struct stat64 *s) { return statFault(p) ? -1 : syscall(SYS_stat, p, s); }
static int doFstat(int fd, void *s) { if (mine(fd)) { sim::step(1000000); if (sim::fault("fstat-fails")) { g_hard++; errno = EIO; return -1; } } return syscall(SYS_fstat, fd, s); }
int fstat(int fd, struct stat *s) { return doFstat(fd, s); }
int fstat64(int fd, struct stat64 *s) { return doFstat(fd, s); }
int close(int fd) {
  if (sim::active() && g_open.count(fd)) {
    bool m = mine(fd), wr; { sim::Env e; wr = g_open[fd]; g_open.erase(fd); g_bad.erase(fd); }
    if (m && wr && sim::fault("close-fails")) { g_hard++; syscall(SYS_close, fd); errno = EIO; return -1; } // a write the disk refused late
  }
  return syscall(SYS_close, fd);
}
static void stop(const char *how) { if (sim::active() && sim::inSut()) { sim::Env e; fail("crash", "the compiler ended with %s", how); } }
void abort() { stop("abort"); signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(134); }
void exit(int c) { stop("exit"); fflush(nullptr); _exit(c); }
void __assert_fail(const char *x, const char *, unsigned, const char *) { stop("a failed assertion"); dprintf(2, "assertion failed: %s\n", x); abort(); }
}

// ------------------------------------------------------------ the rest of the compiler
namespace onnx_mlir {
int ONNXToZHighLoweringConfiguration::optReportNNPAUnsupportedOps, ONNXToZHighLoweringConfiguration::reportOnNNPAUnsupportedOps; bool ONNXToZHighLoweringConfiguration::isDynQuant;
namespace zhigh { ZHighDisposableGarbageCollector::ZHighDisposableGarbageCollector(MLIRContext *) : disposablePool(*(DisposablePool *)&g_hard) {} ZHighDisposableGarbageCollector::~ZHighDisposableGarbageCollector() {} void ZHighDisposableGarbageCollector::runAfterPass(Pass *, Operation *) {} }
void addONNXToMLIRPasses(PassManager &, bool, bool) {}
void configurePasses() {}
void getONNXToZHighOneOpPatterns(RewritePatternSet &) {}
void getONNXToZHighMultipleOpPatterns(RewritePatternSet &) {}
void getONNXToZHighOneOpDynamicallyLegal(ConversionTarget *, const DimAnalysis *) {}
void getRewriteONNXForZHighPatterns(RewritePatternSet &, DimAnalysis *, bool) {}
void getRewriteONNXForZHighDynamicallyLegal(ConversionTarget *, const DimAnalysis *, bool) {}
// the cost model: matrix multiplications nobody placed go to the accelerator
static bool costModel(const Str &type) { return type == "onnx.MatMul"; }
static void place(MLIRContext *c, llvm::ArrayRef<Operation *> ops) { for (auto *o : ops) if (!o->hasAttr("device") && costModel(o->getName().getStringRef().str())) o->setAttr("device", StringAttr::get(c, "nnpa")); }
void PlaceAllLegalOpsOnNNPA(MLIRContext *c, const llvm::SmallVector<Operation *, 32> &ops, const OpSetType &) { place(c, ops); }
void PlaceBeneficialOpsOnNNPA(MLIRContext *c, const llvm::SmallVector<Operation *, 32> &ops, const DimAnalysis *, const OpSetType &) { place(c, ops); }
void PlaceBeneficialOpsOnNNPAWithStickUnstick(MLIRContext *c, ModuleOp, const llvm::SmallVector<Operation *, 32> &ops, const DimAnalysis *, const OpSetType &, double, double, double) { place(c, ops); }
}

static MLIRContext *C;
struct TestDialect : Dialect { static constexpr llvm::StringLiteral getDialectNamespace() { return llvm::StringLiteral("test"); } explicit TestDialect(MLIRContext *c) : Dialect("test", c, TypeID::get<TestDialect>()) { allowUnknownOperations(); } };
static void put(const Str &p, const Str &d) { sim::Env e; FILE *f = fopen(p.c_str(), "w"); if (!f) { perror(p.c_str()); _exit(3); } fwrite(d.data(), 1, d.size(), f); fclose(f); }
static bool get(const Str &p, Str &d) { sim::Env e; int fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0); if (fd < 0) return false; d.clear(); char b[8192]; ssize_t n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) d.append(b, n); syscall(SYS_close, fd); return n == 0; }
static std::optional<json::Object> parseFile(const Str &p) { Str d; if (!get(p, d)) return std::nullopt; auto v = json::parse(d); if (!v) { llvm::consumeError(v.takeError()); return std::nullopt; } if (auto *o = v->getAsObject()) return std::move(*o); return std::nullopt; }

// ------------------------------------------------------------ operations and what is known of them
struct Ten { int kind = 0; std::vector<int64_t> dims; Str el; }; // 0 ranked 1 unranked 2 no tensor
struct Opn { Str type, name; bool named = false; std::vector<Ten> in, out; std::optional<Str> device; std::optional<bool> quant; };
static const int64_t DYN = -1;
static Type elTy(const Str &s) { Builder b(C); return s == "f32" ? (Type)b.getF32Type() : s == "f16" ? (Type)b.getF16Type() : s == "i1" ? (Type)b.getI1Type() : s == "ui8" ? (Type)b.getIntegerType(8, false) : (Type)b.getI64Type(); }
static Type mlirTy(const Ten &t) {
  if (t.kind == 2) return NoneType::get(C);
  if (t.kind == 1) return UnrankedTensorType::get(elTy(t.el));
  llvm::SmallVector<int64_t> d; for (auto x : t.dims) d.push_back(x == DYN ? ShapedType::kDynamic : x); return RankedTensorType::get(d, elTy(t.el));
}
static Ten someTen() {
  Ten t; static const std::vector<Str> E = {"f32", "i64", "f16", "i1", "ui8"}; t.el = sim::pick(E); int k = sim::choose(12); if (k == 10) { t.kind = 2; return t; } if (k == 11) { t.kind = 1; return t; }
  static const std::vector<int64_t> D = {1, 2, 3, 4, 5, 32, 64, 128, DYN, 10, 4096, 3000000000LL}; int r = sim::choose(4); for (int i = 0; i < r; i++) t.dims.push_back(sim::pick(D)); return t;
}
static const std::vector<Str> TYPES = {"onnx.MatMul", "onnx.Relu", "onnx.Add", "onnx.Conv", "onnx.Constant", "test.Other"};
static const std::vector<Str> NAMES = {"MatMul_0", "MatMul_1", "MatMul_12", "/model/layers.0/q/MatMul", "/model/layers.00/q/MatMul", "a.b", "axb", "add+1", "addd1", "f(x)", "fx", "x[0]", "x0", "$end", "p|q", "p", "w*", "ww", "^top", "is?", "i", "back\\slash", "r{2}", "rr", "Conv;Bias", "caf\xc3\xa9", "quo\"te", "tab\there", "a b", "end\\", ")", "-", "0"};
static bool scoped(const Opn &o) { return o.type.compare(0, 5, "onnx.") == 0 && o.type != "onnx.Constant"; }
static Str DEV[] = {"cpu", "nnpa", "", "CPU", "NNPA"};
static std::vector<Opn> someOps() {
  std::vector<Opn> v; int n = 1 + sim::choose(6); std::vector<Ten> same; { int k = 1 + sim::choose(3); for (int i = 0; i < k; i++) same.push_back(someTen()); }
  for (int i = 0; i < n; i++) {
    Opn o; o.type = sim::chance(1, 2) ? TYPES[0] : sim::pick(TYPES); o.named = !sim::chance(1, 5); if (o.named) o.name = sim::pick(NAMES);
    int a = sim::choose(4), b = sim::choose(3); for (int k = 0; k < a; k++) o.in.push_back(sim::chance(2, 3) ? same[sim::choose(same.size())] : someTen()); for (int k = 0; k < b; k++) o.out.push_back(sim::chance(2, 3) ? same[sim::choose(same.size())] : someTen());
    if (sim::chance(1, 3)) o.device = DEV[sim::choose(5)]; if (sim::chance(1, 4)) o.quant = sim::chance(1, 2);
    v.push_back(o);
  }
  return v;
}
struct Mod { OwningOpRef<ModuleOp> m; std::vector<Operation *> ops; };
static Mod build(const std::vector<Opn> &v, bool attrs) {
  Mod r; Location l = UnknownLoc::get(C); OpBuilder b(C); r.m = ModuleOp::create(l); b.setInsertionPointToStart(r.m->getBody());
  auto f = b.create<func::FuncOp>(l, "main", FunctionType::get(C, {}, {})); Block *blk = f.addEntryBlock();
  for (auto &o : v) {
    OperationState s(l, o.type); for (auto &t : o.in) { OperationState src(l, "test.Source"); src.addTypes(mlirTy(t)); Operation *p = Operation::create(src); blk->push_back(p); s.addOperands(p->getResult(0)); }
    for (auto &t : o.out) s.addTypes(mlirTy(t));
    if (o.named) s.addAttribute("onnx_node_name", StringAttr::get(C, o.name)); if (attrs && o.device) s.addAttribute("device", StringAttr::get(C, *o.device)); if (attrs && o.quant) s.addAttribute("quantize", BoolAttr::get(C, *o.quant));
    Operation *p = Operation::create(s); blk->push_back(p); r.ops.push_back(p);
  }
  OperationState ret(l, "onnx.Return"); blk->push_back(Operation::create(ret)); return r;
}

// ------------------------------------------------------------ rules
struct Con { Str text; int kind = 0; int64_t a = 0, b = 0; }; // 0 == 1 > 2 >= 3 < 4 <= 5 != 6 %a==b 7 nothing satisfies it
struct Pat { bool object = true; std::optional<Con> rank; bool rankText = true; std::optional<Str> el; std::vector<std::pair<Str, Con>> dims; bool hasDims = false; };
struct Rule { int typeKind = 0; Str type; int nameKind = 0; Str name, name2; bool hasIn = false, hasOut = false; std::vector<std::pair<Str, Pat>> in, out; std::optional<Str> device; std::optional<bool> quant; bool broken = false; Str text; };
static bool sat(int64_t v, const Con &c) { switch (c.kind) { case 0: return v == c.a; case 1: return v > c.a; case 2: return v >= c.a; case 3: return v < c.a; case 4: return v <= c.a; case 5: return v != c.a; case 6: return v % c.a == c.b; default: return false; } }
static bool index(const Str &s, int64_t n, int64_t &i) { if (s.empty() || s.find_first_not_of("-0123456789") != Str::npos || s == "-") return false; i = strtoll(s.c_str(), nullptr, 10); if (i < 0) i += n; return i >= 0 && i < n; }
static bool matchTen(const Ten &t, const Pat &p) {
  if (!p.object) return false;
  if (p.rank && (!p.rankText || t.kind || !sat(t.dims.size(), *p.rank))) return false;
  if (p.el && (t.kind == 2 || t.el != *p.el)) return false;
  for (auto &d : p.dims) { int64_t i; if (t.kind || !index(d.first, t.dims.size(), i) || !sat(t.dims[i], d.second)) return false; }
  return true;
}
static bool matchTens(const std::vector<Ten> &v, const std::vector<std::pair<Str, Pat>> &ps) { for (auto &p : ps) { int64_t i; if (!index(p.first, v.size(), i) || !matchTen(v[i], p.second)) return false; } return true; }
static bool matchRule(const Opn &o, const Rule &r) {
  if (r.broken) return false;
  if (r.typeKind == 0 ? o.type != r.type : r.typeKind == 1 ? o.type.compare(0, 5, "onnx.") != 0 : false) return false;
  if (r.nameKind && !o.named) return false;
  switch (r.nameKind) { case 1: if (o.name != r.name) return false; break; case 2: if (o.name.compare(0, r.name.size(), r.name) || o.name.find('\n') != Str::npos) return false; break; case 3: if (o.name != r.name && o.name != r.name2) return false; break; default: break; }
  return (!r.hasIn || matchTens(o.in, r.in)) && (!r.hasOut || matchTens(o.out, r.out));
}
static Str esc(const Str &s) { Str r; for (char c : s) { if (strchr("\\^$.|?*+()[]{}", c)) r += '\\'; r += c; } return r; }
static Con someCon(int64_t near) {
  Con c; static const char *const OPS[] = {"==", ">", ">=", "<", "<=", "!="}; int64_t v = sim::chance(1, 2) ? near : near + (int64_t)sim::choose(5) - 2;
  switch (sim::choose(10)) {
  case 0: case 1: c.a = v; c.text = std::to_string(v); break;
  case 2: case 3: { static const int64_t M[] = {32, 64, 2, 3, 1}; c.kind = 6; c.a = M[sim::choose(5)]; c.b = sim::chance(1, 2) ? near % c.a : sim::chance(1, 2) ? near % c.a + c.a : sim::choose(4); c.text = "%" + std::to_string(c.a) + "==" + std::to_string(c.b); } break;
  case 4: { static const char *const BAD[] = {"", "abc", "%==", "%0==0", "%5", ">", "==x", "%x==1"}; c.kind = 7; c.text = BAD[sim::choose(8)]; } break;
  default: c.kind = sim::choose(6); c.a = v; c.text = Str(OPS[c.kind]) + std::to_string(v); break;
  }
  return c;
}
static Str q(const Str &s) { Str r; llvm::raw_string_ostream o(r); o << json::Value(s); return o.str(); }
static Str q(const Str &s, bool str) { return str ? q(s) : "7"; }
static Str idx(size_t n, size_t i) { if (sim::chance(1, 10)) { static const char *const B[] = {"9", "-9", "x", "", "-"}; return B[sim::choose(5)]; } return sim::chance(1, 3) ? std::to_string((int64_t)i - (int64_t)n) : std::to_string(i); }
static void somePats(const std::vector<Ten> &v, std::vector<std::pair<Str, Pat>> &ps) {
  int n = sim::choose(3); std::set<Str> used;
  for (int k = 0; k < n; k++) {
    size_t i = v.empty() ? 0 : sim::choose(v.size()); Str key = idx(v.size(), i); if (!used.insert(key).second) continue; Pat p; Ten t = v.empty() ? Ten() : v[i];
    if (sim::chance(1, 24)) { p.object = false; ps.push_back({key, p}); continue; }
    if (sim::chance(1, 2)) { p.rank = someCon(t.dims.size()); if (sim::chance(1, 16)) p.rankText = false; }
    if (sim::chance(1, 3)) p.el = sim::chance(3, 4) && t.kind != 2 ? t.el : Str("f32");
    if (sim::chance(1, 2)) { p.hasDims = true; int m = sim::choose(3); std::set<Str> u; for (int j = 0; j < m; j++) { size_t d = t.dims.empty() ? 0 : sim::choose(t.dims.size()); Str kk = idx(t.dims.size(), d); if (u.insert(kk).second) p.dims.push_back({kk, someCon(t.dims.empty() ? 1 : t.dims[d])}); } }
    ps.push_back({key, p});
  }
}
static Str patText(const std::vector<std::pair<Str, Pat>> &ps) {
  Str r = "{"; bool first = true;
  for (auto &kp : ps) {
    r += Str(first ? "" : ", ") + q(kp.first) + ": "; first = false; const Pat &p = kp.second; if (!p.object) { r += "\"any\""; continue; } Str s;
    if (p.rank) s += ", \"rank\": " + q(p.rank->text, p.rankText); if (p.el) s += ", \"type\": " + q(*p.el);
    if (p.hasDims) { Str d; for (auto &x : p.dims) d += ", " + q(x.first) + ": " + q(x.second.text); s += ", \"dims\": {" + (d.empty() ? d : d.substr(2)) + "}"; }
    r += "{" + (s.empty() ? s : s.substr(2)) + "}";
  }
  return r + "}";
}
static Rule someRule(const std::vector<Opn> &ops) {
  Rule r; const Opn &o = ops[sim::choose(ops.size())]; Str m, w;
  r.typeKind = sim::chance(1, 4) ? 1 + sim::choose(2) : 0; r.type = sim::chance(7, 8) ? o.type : sim::pick(TYPES); Str ty = r.typeKind == 0 ? (sim::chance(1, 2) ? r.type : esc(r.type)) : r.typeKind == 1 ? "onnx\\..*" : ".*";
  if (sim::chance(1, 2)) { r.nameKind = 1 + sim::choose(3); r.name = sim::chance(3, 4) && o.named ? o.name : sim::pick(NAMES); r.name2 = sim::pick(NAMES); if (r.nameKind == 2) r.name = r.name.substr(0, 1 + sim::choose(r.name.size())); while (r.nameKind == 2 && (unsigned char)r.name.back() >= 0x80) r.name.pop_back(); }
  Str nm = r.nameKind == 1 ? esc(r.name) : r.nameKind == 2 ? esc(r.name) + ".*" : "(" + esc(r.name) + "|" + esc(r.name2) + ")";
  if (sim::chance(1, 16)) { r.broken = true; static const char *const B[] = {"[", "(", "*a", "a{2"}; if (r.nameKind && sim::chance(1, 2)) nm = B[sim::choose(4)]; else ty = B[sim::choose(4)]; }
  m = "\"node_type\": " + q(ty); if (r.nameKind) m += ", \"onnx_node_name\": " + q(nm);
  if (sim::chance(1, 32)) { r.broken = true; m = "\"onnx_node_name\": " + q(".*"); }
  if (sim::chance(1, 2)) { r.hasIn = true; somePats(o.in, r.in); m += ", \"inputs\": " + patText(r.in); } if (sim::chance(1, 2)) { r.hasOut = true; somePats(o.out, r.out); m += ", \"outputs\": " + patText(r.out); }
  if (sim::chance(2, 3)) { r.device = DEV[sim::choose(5)]; w += ", \"device\": " + q(*r.device); } if (sim::chance(1, 2)) { r.quant = sim::chance(1, 2); w += Str(", \"quantize\": ") + (*r.quant ? "true" : "false"); }
  r.text = "{\"pattern\": {\"match\": {" + m + "}, \"rewrite\": {" + (w.empty() ? w : w.substr(2)) + "}}}"; if (sim::chance(1, 40)) { r.broken = true; static const char *const B[] = {"5", "{}", "{\"pattern\": 1}", "{\"pattern\": {\"match\": {}}}"}; r.text = B[sim::choose(4)]; }
  return r;
}
struct Cfg { bool valid = true; bool whole = true; std::vector<Rule> rules; std::vector<Str> options; bool hasOptions = false, hasRules = false; Str text; };
static Cfg someCfg(const std::vector<Opn> &ops) {
  Cfg c; Str t;
  if (sim::chance(1, 2)) { c.hasOptions = true; static const std::vector<Str> O = {"-O3", "--march=z17", "--parallel", "-j", "8", "--EmitLib", "-o=a b"}; int n = sim::choose(4); Str l; for (int i = 0; i < n; i++) { c.options.push_back(sim::pick(O)); l += ", " + q(c.options.back()); } t += ", \"compile_options\": [" + (l.empty() ? l : l.substr(2)) + "]"; }
  if (sim::chance(1, 4)) t += ", \"note\": {\"keep\": [1, 2, \"x\"]}";
  if (sim::chance(7, 8)) { c.hasRules = true; int n = sim::choose(5); Str l; for (int i = 0; i < n; i++) { c.rules.push_back(someRule(ops)); l += ",\n  " + c.rules.back().text; } t += ", \"nnpa_ops_config\": [" + (l.empty() ? l : l.substr(1)) + "]"; }
  if (sim::chance(1, 16)) t += ", \"pad\": \"" + Str(17000 + sim::choose(60000), 'p') + "\"";
  c.text = "{" + (t.empty() ? t : t.substr(2)) + "}\n";
  if (sim::chance(1, 6)) { // what a crashed writer, a full disk or a careless editor leaves
    c.valid = false; c.whole = false;
    switch (sim::choose(5)) { case 0: c.text = c.text.substr(0, sim::choose(c.text.size() - 1)); break; case 1: c.text = ""; break; case 2: c.text = "[" + c.text + "]"; break; case 3: c.text = "\"compile_options\""; break; default: c.text = Str(c.text.size(), '\0'); break; }
  }
  return c;
}
static void applyRules(const std::vector<Rule> &rs, std::vector<Opn> &v, bool dev, bool quant) {
  for (auto &o : v) { if (!scoped(o)) continue; for (auto &r : rs) if (matchRule(o, r)) { if (dev && r.device) o.device = r.device; if (quant && r.quant) o.quant = r.quant; break; } }
}
// the rules a saved placement consists of: an operation by its type, its name and its tensors
static bool savedMatches(const Opn &saved, const Opn &o) {
  if (saved.type != o.type || (saved.named && (!o.named || saved.name != o.name)) || saved.in.size() > o.in.size() || saved.out.size() > o.out.size()) return false;
  auto same = [](const Ten &a, const Ten &b) { if (a.kind == 2) return true; if (b.kind == 2 || a.el != b.el) return false; if (a.kind == 1) return true; return b.kind == 0 && a.dims == b.dims; };
  for (size_t i = 0; i < saved.in.size(); i++) if (!same(saved.in[i], o.in[i])) return false;
  for (size_t i = 0; i < saved.out.size(); i++) if (!same(saved.out[i], o.out[i])) return false;
  return true;
}
// distinct: no operation could be taken for another saved one
static bool distinct(const std::vector<Opn> &v) { for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) if (i != j && scoped(v[i]) && scoped(v[j]) && savedMatches(v[i], v[j])) return false; return true; }

static void expectAttrs(const Mod &m, const std::vector<Opn> &want, const char *cls, const char *when, bool dev = true, bool quant = true) {
  for (size_t i = 0; i < want.size(); i++) {
    auto d = m.ops[i]->getAttrOfType<StringAttr>("device"); auto k = m.ops[i]->getAttrOfType<BoolAttr>("quantize"); const Opn &w = want[i];
    if (dev && ((bool)d != w.device.has_value() || (d && d.getValue() != *w.device))) fail(cls, "%s operation %zu (%s '%s') has device '%s' instead of '%s'", when, i, w.type.c_str(), w.name.c_str(), d ? d.getValue().str().c_str() : "none", w.device ? w.device->c_str() : "none");
    if (quant && ((bool)k != w.quant.has_value() || (k && k.getValue() != *w.quant))) fail(cls, "%s operation %zu (%s '%s') has quantize %s instead of %s", when, i, w.type.c_str(), w.name.c_str(), k ? (k.getValue() ? "true" : "false") : "none", w.quant ? (*w.quant ? "true" : "false") : "none");
  }
}
static int runPass(Mod &m, std::unique_ptr<Pass> p) { PassManager pm(C); pm.enableVerifier(false); { sim::Sut s; pm.addPass(std::move(p)); return succeeded(pm.run(*m.m)) ? 0 : 1; } }

// ------------------------------------------------------------ files of the run
struct File { bool exists = false; Cfg cfg; bool known = true; }; // known: written by the harness, or by a successful save of ops
static std::map<Str, File> files;
static Str path(int i) { static const char *const N[] = {"a.json", "b.json", "omconfig.json", "missing/c.json", "d.json"}; return S + "/" + N[i]; }
static void someFile(const Str &p, const std::vector<Opn> &ops) { if (p.find("missing/") != Str::npos) return; File f; f.exists = true; f.cfg = someCfg(ops); put(p, f.cfg.text); sim::ev("file %s %s %zu rules %zu bytes", p.c_str() + S.size(), f.cfg.valid ? "whole" : "broken", f.cfg.rules.size(), f.cfg.text.size()); files[p] = f; }
// the file holds the placement of ops and everything else that was there (keep)
static void checkSaved(const Str &p, const std::vector<Opn> &ops, const json::Object *keep, bool dev, bool quant) {
  auto o = parseFile(p); if (!o) fail("incomplete-save", "%s is not a complete configuration although saving it was reported as done", p.c_str() + S.size());
  if (keep) for (auto &kv : *keep) if (kv.first != "nnpa_ops_config" && (!o->get(kv.first) || *o->get(kv.first) != kv.second)) fail("lost-entry", "the saved configuration lost '%s'", kv.first.str().c_str());
  std::vector<Opn> want, bare = ops; for (auto &b : bare) { b.device.reset(); b.quant.reset(); }
  want = bare; bool dis = distinct(ops);
  for (auto &w : want) { if (!scoped(w)) continue; for (auto &s : ops) { bool some = scoped(s) && ((dev && s.device && !s.device->empty()) || (quant && s.quant)); if (some && savedMatches(s, w)) { if (dev && s.device && !s.device->empty()) w.device = s.device; if (quant && s.quant) w.quant = s.quant; break; } } }
  if (dis) { sim::probe("distinct operations reloaded"); for (size_t i = 0; i < want.size(); i++) if (scoped(ops[i]) && ((dev && ops[i].device.value_or("") != want[i].device.value_or("")) || (quant && ops[i].quant != want[i].quant))) fail("model", "the reference placement is wrong"); }
  bool armed = sim::faultsArmed(); sim::armFaults(false);
  Mod m = build(bare, false);
  { NNPAJsonConfigObject c; bool ok; { sim::Sut s; ok = c.loadFromFile(p); } if (!ok) fail("incomplete-save", "%s cannot be loaded although saving it was reported as done", p.c_str() + S.size());
    std::vector<Operation *> sel; for (size_t i = 0; i < bare.size(); i++) if (scoped(bare[i])) sel.push_back(m.ops[i]);
    sim::Sut s; c.applyConfigToOps(sel, [&](json::Object *r, Operation *op) { if (auto d = r->getString("device")) op->setAttr("device", StringAttr::get(C, *d)); if (auto b = r->getBoolean("quantize")) op->setAttr("quantize", BoolAttr::get(C, *b)); }); }
  expectAttrs(m, want, "wrong-reload", "after reloading what was saved", dev, quant);
  sim::armFaults(armed); sim::probe("saved and reloaded");
  File f; f.exists = true; f.known = false; files[p] = f; // rules the harness did not write
}
static bool fileValid(const Str &p) { return parseFile(p).has_value(); }

// ------------------------------------------------------------ configuration objects
struct Obj { NNPAJsonConfigObject *o; bool loaded = false; Str from; json::Object model; std::optional<std::vector<Rule>> rules; };
static void checkObj(Obj &x, const char *when) {
  sim::Sut s; bool l = x.o->isLoaded(), e = x.o->empty(); Str f = x.o->getFilePath(); sim::Env v;
  if (l != x.loaded || f != x.from) fail("wrong-state", "after %s the configuration says it is %sloaded from '%s'", when, l ? "" : "not ", f.c_str()); if (e != x.model.empty()) fail("wrong-state", "after %s the configuration is %s", when, e ? "empty" : "not empty");
  std::vector<Str> a, w; bool r; { sim::Sut t; r = x.o->getCompileOptions(a); } auto *arr = x.model.getArray("compile_options"); if (arr) for (auto &v : *arr) w.push_back(v.getAsString()->str()); if (a != w || r != !w.empty()) fail("wrong-options", "after %s the configuration gives %zu options instead of %zu", when, a.size(), w.size());
}
static void load(Obj &x, const Str &p) {
  unsigned h0 = g_hard; bool had = x.loaded, r; { sim::Sut s; r = x.o->loadFromFile(p); }
  auto want = parseFile(p); sim::ev("load %s -> %d", p.c_str() + S.size(), r);
  if (had) { if (r != (p == x.from)) fail("wrong-result", "loading a second file returned %d", r); checkObj(x, "a second load"); return; }
  if (r && !want) fail("broken-accepted", "loading %s, which is not a complete configuration, was reported as done", p.c_str() + S.size());
  if (!r && want && g_hard == h0) fail("spurious-error", "loading a complete configuration failed");
  if (r) { x.loaded = true; x.from = p; x.model = std::move(*want); x.rules.reset(); if (files[p].known) x.rules = files[p].cfg.rules; sim::probe("loaded"); } else sim::probe("load failed");
  checkObj(x, r ? "loading" : "a failed load");
}
static void store(Obj &x, const Str &p) {
  unsigned h0 = g_hard; bool r; { sim::Sut s; r = x.o->storeToFile(p, sim::choose(4)); }
  sim::ev("store %s -> %d", p.c_str() + S.size(), r); bool bad = p.find("missing/") != Str::npos;
  if (r && x.model.empty()) fail("wrong-result", "an empty configuration was stored");
  if (r) { auto o = parseFile(p); if (!o || *o != x.model) fail("incomplete-save", "storing %s was reported as done but the file %s", p.c_str() + S.size(), o ? "holds something else" : "is incomplete"); sim::probe("stored"); File f; f.exists = true; f.known = x.rules.has_value(); if (x.rules) f.cfg.rules = *x.rules; files[p] = f; }
  else { if (g_hard == h0 && !bad && !x.model.empty()) fail("spurious-error", "storing a configuration failed"); sim::probe("store failed"); if (!x.model.empty() || files.count(p)) { File f; f.exists = true; f.known = false; if (fileValid(p) && files.count(p) && x.model.empty()) f = files[p]; files[p] = f; } }
  checkObj(x, "storing");
}
static void apply(Obj &x, std::vector<Opn> ops) {
  Mod m = build(ops, true); std::vector<Operation *> sel; for (auto *o : m.ops) sel.push_back(o);
  { sim::Sut s; x.o->applyConfigToOps(sel, [&](json::Object *r, Operation *op) { if (auto d = r->getString("device")) op->setAttr("device", StringAttr::get(C, *d)); if (auto b = r->getBoolean("quantize")) op->setAttr("quantize", BoolAttr::get(C, *b)); }); }
  if (!x.loaded) { expectAttrs(m, ops, "wrong-placement", "without a configuration"); return; }
  if (!x.rules) return;
  std::vector<Opn> want = ops; for (auto &o : want) for (auto &r : *x.rules) if (matchRule(o, r)) { if (r.device) o.device = r.device; if (r.quant) o.quant = r.quant; sim::probe("matched"); break; }
  expectAttrs(m, want, "wrong-placement", "after applying the configuration"); sim::ev("applied");
}
// the passes that read and write placements
static void pass(int kind, const std::vector<Opn> &ops, const Str &in, const Str &out) {
  Mod m = build(ops, true); unsigned h0 = g_hard; long s0 = said(); std::optional<json::Object> had; bool known = false; std::vector<Rule> rules;
  if (kind != 2 && !in.empty()) { had = parseFile(in); known = files.count(in) && files[in].known; if (known) rules = files[in].cfg.rules; }
  int rc = kind == 0 ? runPass(m, createQuantOpSelectionPass(in, out)) : kind == 1 ? runPass(m, createDevicePlacementPass(in, out, QualifyingOps)) : runPass(m, createGenerateConfigFilePass(out));
  bool fault = g_hard != h0, loaded = had.has_value(), badOut = out.find("missing/") != Str::npos; sim::ev("pass %d load '%s' save '%s' -> %d", kind, in.c_str() + (in.empty() ? 0 : S.size()), out.c_str() + (out.empty() ? 0 : S.size()), rc);
  if (rc && !fault && !badOut) fail("spurious-error", "the pass failed");
  std::vector<Opn> want = ops;
  if (kind != 2 && !in.empty() && !loaded && said() == s0) fail("silent", "a configuration that could not be loaded was not reported");
  if (kind != 2 && !in.empty() && loaded) {
    if (!known && !rules.empty()) abort();
    std::vector<Opn> with = ops; applyRules(rules, with, kind == 1, kind == 0);
    if (!known) { rc = rc; } else want = with;
    if (fault) { // the file may not have been readable: then nothing of it is used, and that is said
      bool all = true, none = true; for (size_t i = 0; i < ops.size(); i++) { auto d = m.ops[i]->getAttrOfType<StringAttr>("device"); auto k = m.ops[i]->getAttrOfType<BoolAttr>("quantize"); auto eq = [&](const Opn &o) { auto dd = o.device; if (kind == 1 && !dd && scoped(o) && costModel(o.type)) dd = "nnpa"; return (bool)d == dd.has_value() && (!d || d.getValue() == *dd) && (bool)k == o.quant.has_value() && (!k || k.getValue() == *o.quant); }; all = all && eq(with[i]); none = none && eq(ops[i]); }
      if (known && !all && !none) fail("partial", "part of a configuration was used"); if (known && !all && said() == s0) fail("silent", "a configuration that could not be loaded was not reported"); if (known && !all) want = ops;
    }
  }
  if (kind == 1) for (auto &o : want) if (scoped(o) && !o.device && costModel(o.type)) o.device = "nnpa";
  if (!(kind != 2 && !in.empty() && loaded && !known)) expectAttrs(m, want, "wrong-placement", "after the pass");
  else { for (size_t i = 0; i < want.size(); i++) { auto d = m.ops[i]->getAttrOfType<StringAttr>("device"); auto k = m.ops[i]->getAttrOfType<BoolAttr>("quantize"); want[i].device.reset(); want[i].quant.reset(); if (d) want[i].device = d.getValue().str(); if (k) want[i].quant = k.getValue(); } }
  if (out.empty()) return;
  if (rc) { sim::probe("save failed"); File f; f.exists = true; f.known = false; files[out] = f; return; }
  checkSaved(out, want, nullptr, kind != 0, kind != 1);
}
// one compilation: options from the configuration, then the pipeline
static void compile(const std::vector<Opn> &ops, const Str &cfg, bool dflt, const Str &out, bool verbose) {
  unsigned h0 = g_hard; auto had = parseFile(cfg); bool known = files.count(cfg) && files[cfg].known; std::vector<Rule> rules; if (had && known) rules = files[cfg].cfg.rules;
  std::vector<Str> a = {"onnx-mlir"}; Str model = S + "/model.onnx"; if (sim::chance(1, 2)) { a.push_back(model); model = ""; }
  if (!dflt) { switch (sim::choose(4)) { case 0: a.push_back("--config-file=" + cfg); break; case 1: a.push_back("-config-file=" + cfg); break; case 2: a.push_back("--config-file"); a.push_back(cfg); break; default: a.push_back("-config-file"); a.push_back(cfg); break; } if (!model.empty() && a.back() == cfg) { a.insert(a.begin() + 1, model); model = ""; } }
  if (verbose) a.push_back("-v"); if (!model.empty()) a.push_back(model); std::vector<const char *> av; for (auto &x : a) av.push_back(x.c_str());
  std::vector<Str> extra, want; bool r; { sim::Sut s; r = loadCompileOptionsFromConfig(av.size(), av.data(), extra); } bool f1 = g_hard != h0;
  if (had) if (auto *arr = had->getArray("compile_options")) for (auto &v : *arr) want.push_back(v.getAsString()->str());
  bool used = getGlobalOMConfig().isLoaded(); if (used && !had) fail("broken-accepted", "an incomplete configuration was used"); if (!used && had && !f1) fail("spurious-error", "the configuration was not used");
  if (!used) want.clear(); if (extra != want || r != !want.empty()) fail("wrong-options", "the configuration gave %zu options instead of %zu", extra.size(), want.size());
  Mod m = build(ops, true); saveConfigFile = out; unsigned h1 = g_hard; int rc; EmissionTargetType t = EmitONNXIR;
  { PassManager pm(C); pm.enableVerifier(false); { sim::Sut s; addPassesNNPA(m.m, pm, t, S + "/model"); rc = succeeded(pm.run(*m.m)) ? 0 : 1; } }
  sim::ev("compile config '%s' save '%s' -> used %d result %d", cfg.c_str() + S.size(), out.c_str() + (out.empty() ? 0 : S.size()), used, rc); bool badOut = out.find("missing/") != Str::npos; sim::probe(used ? "compiled with a configuration" : "compiled without a configuration");
  if (rc && g_hard == h1 && !badOut) fail("spurious-error", "the compilation failed");
  std::vector<Opn> w = ops; if (used && known) applyRules(rules, w, true, true); for (auto &o : w) if (scoped(o) && !o.device && costModel(o.type)) o.device = "nnpa";
  if (rc && !out.empty()) { File f; f.exists = true; f.known = false; files[out] = f; sim::probe("save failed"); }
  if (rc) return;
  if (!used || known) expectAttrs(m, w, "wrong-placement", used ? "in a compilation with a configuration" : "in a compilation without a configuration");
  else for (size_t i = 0; i < w.size(); i++) { auto d = m.ops[i]->getAttrOfType<StringAttr>("device"); auto k = m.ops[i]->getAttrOfType<BoolAttr>("quantize"); w[i].device.reset(); w[i].quant.reset(); if (d) w[i].device = d.getValue().str(); if (k) w[i].quant = k.getValue(); }
  if (!out.empty()) checkSaved(out, w, nullptr, true, true);
}

static void run() {
  S = sim::scratch(); char b[4200]; if (char *r = realpath(S.c_str(), b)) S = r; put(S + "/model.onnx", "m"); files.clear(); { int e = memfd_create("stderr", 0); if (e >= 0 && e != 2) { dup2(e, 2); syscall(SYS_close, e); } }
  sim::faultKinds({"open-interrupted", "open-for-writing-fails", "open-for-reading-fails", "read-interrupted", "read-fails", "read-short", "write-interrupted", "write-fails", "write-short", "map-fails", "stat-fails", "fstat-fails", "close-fails"});
  std::vector<Obj> objs; auto ops = someOps(); int n = 2 + sim::choose(7); bool compiled = false; sim::armFaults(true);
  for (int i = 0; i < 3; i++) if (sim::chance(2, 3)) someFile(path(i), ops);
  for (int k = 0; k < n; k++) {
    if (sim::chance(1, 4)) ops = someOps();
    Str p = path(sim::choose(sim::chance(1, 8) ? 5 : 3)), o = path(sim::choose(sim::chance(1, 8) ? 5 : 3));
    switch (sim::choose(9)) {
    case 0: sim::op("write a file"); someFile(p, ops); break;
    case 1: case 2: { sim::op("load"); if (objs.empty() || sim::chance(1, 3)) { Obj x; x.o = new NNPAJsonConfigObject; objs.push_back(std::move(x)); } load(objs[sim::choose(objs.size())], p); } break;
    case 3: if (!objs.empty()) { sim::op("store"); store(objs[sim::choose(objs.size())], o); } break;
    case 4: if (!objs.empty()) { sim::op("apply"); apply(objs[sim::choose(objs.size())], ops); } break;
    case 5: case 6: { int kind = sim::choose(3); sim::op("pass"); pass(kind, ops, p, kind == 2 || sim::chance(2, 3) ? o : ""); } break;
    default: if (!compiled) { compiled = true; sim::op("compile"); bool d = sim::chance(1, 3); compile(ops, d ? path(2) : p, d, sim::chance(2, 3) ? (sim::chance(1, 3) ? (d ? path(2) : p) : o) : "", sim::chance(1, 4)); } break;
    }
    sim::state(sim::hashBytes(&k, 1) + files.size() * 3 + objs.size() * 17 + compiled * 5 + (g_hard ? 7 : 0));
  }
  sim::endRun();
}
int main(int argc, char **argv) {
  sim::Options o; o.cpuLimit = 20; o.needScratch = true; o.quiet = true;
  return sim::simMain(argc, argv, o, [] { C = new MLIRContext(MLIRContext::Threading::DISABLED); C->getOrLoadDialect<ONNXDialect>(); C->getOrLoadDialect<TestDialect>(); C->getOrLoadDialect<func::FuncDialect>(); C->getOrLoadDialect<arith::ArithDialect>(); C->allowUnregisteredDialects(); auto v = std::vector<Opn>(1); v[0].type = "onnx.Relu"; build(v, true); }, run);
}
