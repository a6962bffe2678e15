// P26: the compiler driver. The real driver (onnx-mlir.cpp, CompilerUtils.cpp,
// options, commands) runs in this process; the importer and the lowering
// pipeline are stand-ins, and the tools it starts (opt, llc, the linker, ar,
// jar) are forked children that simulate those programs: each reads its
// inputs, refuses them when they are not complete, and writes its output in
// two steps between which it can die. Disk operations of the driver fail.
#include "simkit.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/LLVMIR/LLVMDialect.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/Pass.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/TargetSelect.h"
#include "src/Builder/FrontendDialectTransformer.hpp"
#include "src/Compiler/CommandUtils.hpp"
#include "src/Compiler/CompilerDialects.hpp"
#include "src/Compiler/CompilerOptions.hpp"
#include "src/Compiler/CompilerPasses.hpp"
#include "src/Compiler/CompilerUtils.hpp"
#include "src/Version/Version.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
namespace fs = std::filesystem;
using namespace mlir;
using namespace onnx_mlir;
using sim::fail;
typedef std::vector<std::string> VS;
int onnx_mlir_main(int, char **);

// ------------------------------------------------------------ records shared with the simulated programs
enum { OPT, LLC, CXX, AR, JAR, OTHER };
static const char *TOOL[] = {"opt", "llc", "cxx", "ar", "jar", "other"};
struct Plan { int crashAt, code, sig, execErr; };
struct Rec { pid_t pid; Plan plan; volatile int execd, done, good, kind, badInput, waited; char args[4096]; int nargs, len; };
static Rec *R; static volatile int *nrecp;
#define nrec (*nrecp)
static const int MAXR = 200;
static int g_child = -1; static pid_t g_parent; static std::string S;
static jmp_buf g_exit; static bool g_canExit; static int g_exitCode; static sim::Sut *g_sut;
static VS unpack(const char *b, int n, int len) { VS v; const char *p = b; for (int i = 0; i < n && p < b + len; i++) { v.push_back(p); p += v.back().size() + 1; } return v; }

// ------------------------------------------------------------ disk operations
static std::map<int, std::string> g_files; // descriptors of files of ours the driver has open
static bool g_full; static unsigned g_fullAt; static unsigned g_hard, g_unlinkFails, g_chdirFails; static unsigned char g_bad[1024];
static bool ours(const char *p) { return sim::active() && sim::inSut() && g_child < 0 && p && (p[0] != '/' || !strncmp(p, S.c_str(), S.size())); }
static void hard() { g_hard++; }
static const char *leaf(const char *p) { const char *q = strrchr(p, '/'); return q ? q + 1 : p; }
static int doOpen(const char *p, int fl, int mode) {
  if (ours(p)) {
    sim::step(20000); bool wr = (fl & O_ACCMODE) != O_RDONLY;
    if (sim::fault("open-interrupted")) { errno = EINTR; return -1; }
    if (wr && sim::fault("open-for-writing-fails")) { hard(); static const int E[] = {EACCES, ENOSPC, EROFS, EMFILE, EDQUOT}; errno = E[sim::choose(5)]; return -1; }
    if (!wr && sim::fault("open-for-reading-fails")) { hard(); static const int E[] = {EACCES, EMFILE, EIO, ENOENT}; errno = E[sim::choose(4)]; return -1; }
    int fd = syscall(SYS_openat, AT_FDCWD, p, fl, mode);
    if (fd >= 0) { sim::Env e; g_files[fd] = p; if (fd < 1024) g_bad[fd] = 0; }
    return fd;
  }
  return syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
extern "C" {
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doOpen(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doOpen(p, fl, m); }
ssize_t write(int fd, const void *b, size_t n) {
  if (sim::active() && sim::inSut() && g_child < 0 && fd < 1024 && g_files.count(fd) && n) {
    sim::step(20000);
    if (sim::fault("write-interrupted")) { hard(); errno = EINTR; return -1; }
    if (g_bad[fd] || sim::fault("write-fails")) {
      if (!g_bad[fd]) { hard(); g_bad[fd] = 1 + sim::choose(2); if (sim::chance(1, 2) && n > 1) { size_t part = 1 + sim::choose(n - 1); return syscall(SYS_write, fd, b, part); } }
      int once = g_bad[fd] == 1; if (once) g_bad[fd] = 0; errno = once ? EIO : ENOSPC; return -1; // one bad block, or a full disk
    }
    if (n > 1 && sim::fault("write-short")) hard(), n = 1 + sim::choose(n - 1);
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) {
  if (sim::active() && sim::inSut() && g_child < 0 && g_files.count(fd) && n) {
    if (sim::fault("read-interrupted")) { hard(); errno = EINTR; return -1; }
    if (sim::fault("read-fails")) { hard(); errno = EIO; return -1; }
    if (n > 1 && sim::fault("read-short")) n = 1 + sim::choose(n - 1);
  }
  return syscall(SYS_read, fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (sim::active() && sim::inSut() && g_child < 0 && g_files.count(fd) && n) {
    if (sim::fault("read-fails")) { hard(); errno = EIO; return -1; }
    if (n > 1 && sim::fault("read-short")) n = 1 + sim::choose(n - 1);
  }
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
int close(int fd) {
  if (sim::active() && sim::inSut() && g_child < 0 && g_files.count(fd)) {
    { sim::Env e; g_files.erase(fd); }
    int fl = fcntl(fd, F_GETFL); bool wr = (fl & O_ACCMODE) != O_RDONLY;
    if (wr && sim::fault("close-fails")) { hard(); syscall(SYS_close, fd); errno = EIO; return -1; } // a write the disk refused late
  }
  return syscall(SYS_close, fd);
}
static int doUnlink(const char *p) {
  if (ours(p) && sim::fault("remove-fails")) { g_unlinkFails++; errno = EBUSY; return -1; }
  return syscall(SYS_unlinkat, AT_FDCWD, p, 0);
}
int unlink(const char *p) { return doUnlink(p); }
int remove(const char *p) { if (doUnlink(p) == 0) return 0; if (errno != EISDIR) return -1; return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
static int doStat(const char *p, struct stat *st, int fl) {
  if (ours(p) && sim::fault("stat-fails")) { hard(); static const int E[] = {EACCES, EIO, ELOOP}; errno = E[sim::choose(3)]; return -1; }
  return syscall(SYS_newfstatat, AT_FDCWD, p, st, fl);
}
int stat(const char *p, struct stat *st) { return doStat(p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return doStat(p, (struct stat *)st, 0); }
char *getcwd(char *b, size_t n) {
  if (sim::active() && sim::inSut() && g_child < 0 && sim::fault("getcwd-fails")) { hard(); errno = ENOENT; return nullptr; }
  char t[4096]; long k = syscall(SYS_getcwd, t, sizeof t); if (k < 0) return nullptr;
  if (!b) { if (!n) n = k; b = (char *)malloc(n); if (!b) return nullptr; }
  if ((size_t)k > n) { errno = ERANGE; return nullptr; } memcpy(b, t, k); return b;
}
int chdir(const char *p) { if (sim::active() && sim::inSut() && g_child < 0 && sim::fault("chdir-fails")) { hard(); g_chdirFails++; errno = EACCES; return -1; } return syscall(SYS_chdir, p); }
void exit(int c) {
  static void (*real)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit");
  if (g_canExit && g_child < 0 && getpid() == g_parent) { g_exitCode = c; g_canExit = false; longjmp(g_exit, 1); }
  real(c); _exit(c);
}
}
static std::string slurp(const std::string &p, bool *ok = nullptr) {
  sim::Env e; std::string s; int fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0); if (ok) *ok = fd >= 0; if (fd < 0) return s;
  char b[65536]; ssize_t n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n);
  syscall(SYS_close, fd); return s;
}
static void spill(const std::string &p, const std::string &d, bool append = false) {
  int fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | (append ? O_APPEND : O_TRUNC), 0644); if (fd < 0) return;
  (void)!syscall(SYS_write, fd, d.data(), d.size()); syscall(SYS_close, fd);
}
static bool exists(const std::string &p) { struct stat st; return syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, AT_SYMLINK_NOFOLLOW) == 0; }

// ------------------------------------------------------------ simulated programs (run in the child; never draw)
static std::string pack(const char *kind, const std::string &body) { char h[64]; snprintf(h, sizeof h, "%s:%zu:%016llx:", kind, body.size(), (unsigned long long)sim::hashBytes(body.data(), body.size())); return h + body + "\nEND\n"; }
static bool unpackFile(const char *kind, const std::string &d, std::string &body) {
  std::string k = std::string(kind) + ":"; if (d.rfind(k, 0)) return false;
  size_t n = strtoull(d.c_str() + k.size(), nullptr, 10), c = d.find(':', k.size()); if (c == std::string::npos) return false;
  c = d.find(':', c + 1); if (c == std::string::npos || d.size() != c + 1 + n + 5) return false;
  body = d.substr(c + 1, n); return d == pack(kind, body);
}
// what a bitcode file says about the model it came from; false if it is not complete
static bool readBitcode(const std::string &data, std::string &body) {
  llvm::LLVMContext c; auto buf = llvm::MemoryBuffer::getMemBufferCopy(data, "bc");
  auto m = llvm::parseBitcodeFile(buf->getMemBufferRef(), c); if (!m) { llvm::consumeError(m.takeError()); return false; }
  body.clear(); bool fn = false;
  for (auto &g : (*m)->globals()) if (g.getName().starts_with("sim_payload")) if (auto *a = llvm::dyn_cast<llvm::ConstantDataSequential>(g.getInitializer())) body += "sym=" + g.getName().str() + ";payload=" + a->getAsString().str() + ";";
  for (auto &f : **m) if (f.getName().starts_with("run_main_graph") && !f.isDeclaration()) fn = true;
  std::string t = (*m)->getTargetTriple(); body += "triple=" + t + ";layout=" + ((*m)->getDataLayoutStr().empty() ? "no" : "yes") + ";";
  return fn && body.find("payload=") != std::string::npos;
}
[[noreturn]] static void finish(Rec &r, int code, int sig) {
  r.done = 1; r.good = !code && !sig;
  if (sig) { signal(sig, SIG_DFL); sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, nullptr); kill(getpid(), sig); for (;;) pause(); }
  _exit(code);
}
static void at(Rec &r, int step) { if (step == r.plan.crashAt) finish(r, r.plan.code ? r.plan.code : 1, r.plan.sig); }
[[noreturn]] static void refuse(Rec &r) { r.badInput = 1; finish(r, 1, 0); }
static void emit(Rec &r, const std::string &p, const std::string &d) {
  at(r, 1); spill(p, ""); if (!exists(p)) refuse(r);
  spill(p, d.substr(0, d.size() / 2)); at(r, 2); spill(p, d.substr(d.size() / 2), true); at(r, 3); finish(r, 0, 0);
}
static void runTool(Rec &r, const char *path) {
  VS a = unpack(r.args, r.nargs, r.len); std::string b = leaf(path);
  r.kind = b == "opt" ? OPT : b == "llc" ? LLC : b == "c++" ? CXX : b == "ar" ? AR : b == "jar" ? JAR : OTHER;
  at(r, 0);
  std::string out, opts, libs; VS in;
  if (r.kind <= CXX) {
    for (size_t i = 1; i < a.size(); i++) {
      if (a[i] == "-o" && i + 1 < a.size()) out = a[++i];
      else if ((a[i] == "--code-model" || a[i] == "-z") && i + 1 < a.size()) opts += a[i] + "=" + a[i + 1] + ",", i++;
      else if (a[i].empty()) refuse(r);
      else if (a[i][0] == '-') { if (a[i].rfind("-l", 0) == 0) libs += a[i] + ","; else opts += a[i] + ","; }
      else in.push_back(a[i]);
    }
    if (in.empty() || out.empty()) refuse(r);
  }
  if (r.kind == OPT || r.kind == LLC) {
    if (in.size() != 1) refuse(r);
    bool ok; std::string d = slurp(in[0], &ok), body; if (!ok) refuse(r);
    if (r.kind == OPT ? !readBitcode(d, body) : !unpackFile("BC", d, body)) refuse(r);
    emit(r, out, r.kind == OPT ? pack("BC", body + "opt=" + opts + ";") : pack("OBJ", body + "llc=" + opts + ";"));
  }
  if (r.kind == CXX) {
    std::string all; for (auto &i : in) { std::string body; bool ok, o2; std::string d = slurp(i, &ok); if (!ok || (!unpackFile("OBJ", d, body) && !(o2 = unpackFile("JNI", d, body)))) refuse(r); all += "{" + body + "}"; }
    emit(r, out, pack("LIB", all + "libs=" + libs + ";"));
  }
  if (r.kind == AR) { // ar x ARCHIVE MEMBER
    if (a.size() != 4 || a[1] != "x") refuse(r);
    std::string body; if (!unpackFile("AR", slurp(a[2]), body)) refuse(r);
    emit(r, a[3], pack("JNI", "member=" + a[3] + ";" + body));
  }
  if (r.kind == JAR) { // jar uf JAR -C DIR FILE
    if (a.size() != 6 || a[1] != "uf" || a[3] != "-C") refuse(r);
    std::string body, lib; bool ok; if (!unpackFile("JAR", slurp(a[2]), body)) refuse(r);
    std::string l = slurp(a[4] + "/" + a[5], &ok); if (!ok || !unpackFile("LIB", l, lib)) refuse(r);
    size_t old = body.find("entry="); if (old != std::string::npos) body.resize(old); // replaces the entry of that name
    emit(r, a[2], pack("JAR", body + "entry=" + a[5] + ":{" + lib + "}"));
  }
  finish(r, 127, 0);
}
extern "C" {
pid_t __real_fork(); pid_t __real_waitpid(pid_t, int *, int);
static void (*g_draw)(Plan &);
pid_t __wrap_fork() {
  if (!sim::inSut() || g_child >= 0) return __real_fork();
  if (sim::fault("fork-fails")) { hard(); errno = EAGAIN; return -1; }
  sim::Env e; if (nrec >= MAXR) fail("too-many-commands", "more than %d programs started", MAXR);
  int i = nrec++; memset((void *)&R[i], 0, sizeof(Rec)); R[i].kind = OTHER; g_draw(R[i].plan);
  pid_t p = __real_fork();
  if (!p) { g_child = i; sim::armFaults(false); return 0; }
  R[i].pid = p; return p;
}
pid_t __wrap_waitpid(pid_t p, int *st, int o) {
  if (!sim::inSut() || g_child >= 0) return __real_waitpid(p, st, o);
  sim::step(20000); if (sim::fault("wait-interrupted")) { errno = EINTR; return -1; }
  for (;;) { pid_t r = __real_waitpid(p, st, o); if (r < 0 && errno == EINTR) continue; for (int i = 0; i < nrec; i++) if (R[i].pid == r) R[i].waited = 1; return r; }
}
static int doExec(const char *path, char *const argv[]) {
  if (g_child < 0) { errno = ENOSYS; return -1; }
  Rec &r = R[g_child]; if (r.plan.execErr) { std::string b = leaf(path); r.kind = b == "opt" ? OPT : b == "llc" ? LLC : b == "c++" ? CXX : b == "ar" ? AR : JAR; errno = r.plan.execErr; return -1; }
  for (char *const *a = argv; *a; a++) { size_t n = strlen(*a) + 1; if (r.len + n < sizeof r.args) { memcpy(r.args + r.len, *a, n); r.len += n; r.nargs++; } }
  r.execd = 1; runTool(r, path); _exit(99);
}
int __wrap_execvp(const char *p, char *const a[]) { return doExec(p, a); }
int __wrap_execv(const char *p, char *const a[]) { return doExec(p, a); }
int __wrap_execve(const char *p, char *const a[], char *const *) { return doExec(p, a); }
}

// ------------------------------------------------------------ stand-ins for importer and pipeline
static bool g_passFails, g_importFails; static int g_passRan;
static ModuleOp buildModule(MLIRContext &c, const std::string &payload, int big, const std::string &file, int dim) {
  OpBuilder b(&c); Location loc = FileLineColLoc::get(&c, file, 1, 1); auto m = ModuleOp::create(loc);
  m->setAttr("sim.payload", b.getStringAttr(payload));
  std::vector<int64_t> v(big); for (int i = 0; i < big; i++) v[i] = i * 7 + big; m->setAttr("sim.big", DenseElementsAttr::get(RankedTensorType::get({big}, b.getI64Type()), ArrayRef<int64_t>(v)));
  b.setInsertionPointToEnd(m.getBody()); auto f = b.create<func::FuncOp>(loc, "main_graph", b.getFunctionType({RankedTensorType::get({dim}, b.getF32Type())}, {})); auto *blk = f.addEntryBlock();
  b.setInsertionPointToEnd(blk); b.create<func::ReturnOp>(loc); return m;
}
namespace {
struct Lower : public PassWrapper<Lower, OperationPass<ModuleOp>> {
  MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(Lower)
  EmissionTargetType target; Lower(EmissionTargetType t) : target(t) {}
  StringRef getArgument() const override { return "sim-lower"; }
  void getDependentDialects(DialectRegistry &r) const override { r.insert<LLVM::LLVMDialect>(); }
  void runOnOperation() override {
    g_passRan++; ModuleOp m = getOperation(); if (g_passFails) { m.emitError("a pass fails"); return signalPassFailure(); }
    if (target < EmitLLVMIR) return;
    OpBuilder b(&getContext()); b.setInsertionPointToEnd(m.getBody()); Location l = m.getLoc();
    std::string post; if (auto a = m->getAttrOfType<StringAttr>("onnx-mlir.symbol-postfix")) post = a.getValue().empty() ? "" : "_" + a.getValue().str();
    std::string p = m->getAttrOfType<StringAttr>("sim.payload").getValue().str();
    b.create<LLVM::GlobalOp>(l, LLVM::LLVMArrayType::get(b.getI8Type(), p.size()), true, LLVM::Linkage::External, "sim_payload" + post, b.getStringAttr(p));
    auto f = b.create<LLVM::LLVMFuncOp>(l, "run_main_graph" + post, LLVM::LLVMFunctionType::get(LLVM::LLVMVoidType::get(&getContext()), {}));
    auto *blk = f.addEntryBlock(b); b.setInsertionPointToEnd(blk); b.create<LLVM::ReturnOp>(l, ValueRange());
    for (auto g : llvm::make_early_inc_range(m.getOps<func::FuncOp>())) g.erase();
  }
};
}
namespace onnx_mlir {
DialectRegistry registerDialects(ArrayRef<accel::Accelerator::Kind>) { DialectRegistry r; r.insert<func::FuncDialect, LLVM::LLVMDialect>(); return r; }
void configurePasses() {}
void addPasses(OwningOpRef<ModuleOp> &, PassManager &pm, EmissionTargetType t, std::string) { pm.addPass(std::make_unique<Lower>(t)); }
namespace accel { const llvm::SmallVectorImpl<Accelerator *> &Accelerator::getAccelerators() { static llvm::SmallVector<Accelerator *> v; return v; }
llvm::raw_ostream &operator<<(llvm::raw_ostream &o, const Accelerator::Kind) { return o; }
std::ostream &operator<<(std::ostream &o, const Accelerator::Kind) { return o; }
void initAccelerators(llvm::ArrayRef<Accelerator::Kind>) {} }
int ImportFrontendModelFile(StringRef file, MLIRContext &c, OwningOpRef<ModuleOp> &m, std::string *err, ImportOptions opt) {
  sim::Env e; if (g_importFails) { *err = "the importer fails"; return InvalidOnnxFormat; }
  bool ok; std::string d = slurp(file.str(), &ok), body; if (!ok) { *err = "Unable to open or access " + file.str(); return InvalidInputFileAccess; }
  if (!unpackFile("ONNX", d, body)) { *err = "Onnx Model Parsing Failed"; return InvalidOnnxFormat; }
  size_t bar = body.find('|'); size_t col = opt.shapeInformation.find(':'); if (opt.externalDataDir + "/" != file.str().substr(0, file.rfind('/') + 1) && opt.externalDataDir != file.str().substr(0, file.rfind('/') + 1)) { *err = "wrong directory for external data"; return InvalidOnnxFormat; }
  m = buildModule(c, body.substr(0, bar), atoi(body.c_str() + bar + 1), file.str(), col == std::string::npos ? 2 : atoi(opt.shapeInformation.c_str() + col + 1)); return CompilerSuccess;
}
int ImportFrontendModelArray(const void *, int, MLIRContext &, OwningOpRef<ModuleOp> &, std::string *, ImportOptions) { return InvalidOnnxFormat; }
std::string getOnnxMlirCommitVersion() { return "onnx-mlir sim"; }
std::string getOnnxMlirFullVersion(bool) { return "onnx-mlir sim"; }
std::string getProductFullVersion() { return "sim"; }
void getVersionPrinter(llvm::raw_ostream &os) { os << "sim\n"; }
std::string getVendorName() { return "onnx-mlir"; }
}

// ------------------------------------------------------------ the run
static bool g_sane;
static void drawPlan(Plan &p) {
  p.crashAt = -1; if (g_sane) return;
  switch (sim::choose(10)) {
  case 1: p.crashAt = sim::choose(4); p.code = 1 + sim::choose(3) * 60; break;
  case 2: p.crashAt = sim::choose(4); { static const int G[] = {SIGKILL, SIGSEGV, SIGABRT, SIGTERM}; p.sig = G[sim::choose(4)]; } break;
  case 3: { static const int E[] = {ENOENT, EACCES, ENOMEM, E2BIG}; p.execErr = E[sim::choose(4)]; } break;
  }
}
static const EmissionTargetType TARGETS[] = {EmitLib, EmitObj, EmitJNI, EmitLLVMIR, EmitMLIR, EmitONNXIR, EmitONNXBasic};
static const char *TNAME[] = {"EmitONNXBasic", "EmitONNXIR", "EmitMLIR", "EmitLLVMIR", "EmitObj", "EmitLib", "EmitJNI"};
static std::map<std::string, std::string> snapshot() {
  std::map<std::string, std::string> m; for (auto &e : fs::recursive_directory_iterator(S)) if (e.is_regular_file() && e.path().filename() != "stdout") m[e.path().string().substr(S.size())] = slurp(e.path().string()); return m;
}
static int g_ver;
struct Job { EmissionTargetType target; std::string in, base, payload, tag, wantTag; int big; bool mlirIn, bc, ll, ml, onlySmall, locs, print; std::string xopt, xllc, lib; int level; int badIn; int badOpt; int shape; bool large; };
static std::string irText(const Job &j) {
  std::string s = "module attributes {sim.big = dense<["; for (int i = 0; i < j.big; i++) s += (i ? ", " : "") + std::to_string(i * 7 + j.big);
  return s + "]> : tensor<" + std::to_string(j.big) + "xi64>, sim.payload = \"" + j.payload + "\"} {\n  func.func @main_graph(%arg0: tensor<2xf32>) {\n    return\n  }\n}\n";
}
static bool checkIR(const std::string &text, const Job &j, bool elided, bool lowered, std::string &why) {
  if (text.empty()) { why = "it is empty"; return false; }
  if (elided && j.big > 100) { if (text.find("sim.payload = \"" + j.payload + "\"") == std::string::npos) { why = "the model's text is missing"; return false; } if (text.find(", " + std::to_string(7 * (j.big - 1) + j.big) + "]>") != std::string::npos) { why = "a large constant is not elided"; return false; } size_t e = text.find_last_not_of(" \n"); if (e == std::string::npos || (text[e] != '}' && !j.locs)) { why = "it is cut short"; return false; } return true; }
  MLIRContext c(MLIRContext::Threading::DISABLED); c.loadDialect<func::FuncDialect, LLVM::LLVMDialect>(); ScopedDiagnosticHandler h(&c, [](Diagnostic &) { return success(); });
  auto m = parseSourceString<ModuleOp>(text, &c); if (!m) { why = "it does not parse"; return false; }
  auto p = (*m)->getAttrOfType<StringAttr>("sim.payload"); if (!p || p.getValue() != j.payload) { why = "it is not this model"; return false; }
  auto b = (*m)->getAttrOfType<DenseElementsAttr>("sim.big"); if (!b || b.getNumElements() != j.big) { why = "a constant is missing"; return false; }
  if (!lowered) { auto f = (*m).lookupSymbol<func::FuncOp>("main_graph"); auto t = f && f.getNumArguments() == 1 ? dyn_cast<RankedTensorType>(f.getFunctionType().getInput(0)) : RankedTensorType(); if (!t || t.getDimSize(0) != (j.shape ? j.shape : 2) || t != f.getBody().front().getArgument(0).getType()) { why = "its input has the wrong shape"; return false; } }
  int i = 0; for (int64_t v : b.getValues<int64_t>()) if (v != i++ * 7 + j.big) { why = "a constant differs"; return false; }
  bool has = false; (*m)->walk([&](Operation *o) { if (isa<LLVM::GlobalOp>(o)) has = true; }); if (has != lowered) { why = "it is the wrong stage"; return false; }
  return true;
}
static const char *g_what;
static std::string show(const std::string &p) { std::string s = p; size_t i; while ((i = s.find(S)) != std::string::npos) s.replace(i, S.size(), ""); return s; }
static bool g_main;
static int compile(const Job &j, const VS &argv) { // returns the result, or -1000-code when the process ended inside
  volatile int rc = -1; std::vector<char *> av; for (auto &a : argv) av.push_back((char *)a.c_str()); av.push_back(nullptr);
  g_sut = new sim::Sut; g_canExit = true;
  if (setjmp(g_exit)) { delete g_sut; return -1000 - g_exitCode; }
  if (g_main) rc = onnx_mlir_main(argv.size(), av.data());
  else {
    CURRENT_COMPILE_PHASE = 1; SET_TOTAL_COMPILE_PHASE(j.target);
    MLIRContext c(MLIRContext::Threading::DISABLED); loadDialects(c); OwningOpRef<ModuleOp> m; std::string err;
    rc = processInputFile(j.in, c, m, &err);
    if (!rc) rc = compileModule(m, c, j.base, j.target);
  }
  g_canExit = false; delete g_sut; return rc;
}
static void check(const Job &j, int rc, const std::map<std::string, std::string> &before, int from, unsigned h0, unsigned u0) {
  bool injected = g_hard != h0, kept = g_unlinkFails != u0 || g_chdirFails; auto after = snapshot(); g_files.clear();
  std::string full = j.base[0] == '/' ? j.base : S + "/w/" + j.base, B = fs::path(full.substr(S.size())).lexically_normal().string(), dir = fs::path(B).parent_path().string();
  int bad = -1; bool started[6] = {};
  for (int i = from; i < nrec; i++) { if (!R[i].waited) fail("child-left", "%s was started and not waited for", TOOL[R[i].kind]); started[R[i].kind] = true; if (!R[i].good && bad < 0) bad = i; }
  for (int i = from; i < nrec; i++) if (R[i].plan.sig && R[i].done && !R[i].good) sim::countFault("tool-killed"); else if (R[i].plan.execErr) sim::countFault("tool-cannot-start"); else if (!R[i].good && !R[i].badInput) sim::countFault("tool-fails");
  if (rc <= -1000) fail("ended-inside", "the call ended the process with exit code %d instead of returning an error", -1000 - rc);
  if (rc < 0 || rc > InvalidInputFileLink) fail("unknown-code", "result %d is not a documented code", rc);
  std::string why; const char *tn = TNAME[j.target];
  if (bad >= 0 && !injected && R[bad].badInput) fail("incomplete-handed-over", "%s was given an input that is not complete", TOOL[R[bad].kind]);
  if (rc == 0) {
    sim::probe("compiled");
    if (bad >= 0) fail("false-success", "%s failed and the compilation (%s) reports success", TOOL[R[bad].kind], tn);
    if (j.badOpt) fail("false-success", "%s was accepted and the compilation reports success", j.badOpt == 3 ? "an unknown target" : "an invalid tag");
    if (g_passFails) fail("false-success", "a pass failed and the compilation reports success");
    if (g_importFails || (j.badIn && !(j.badIn == 4 && injected))) fail("false-success", "the input was not usable and the compilation reports success");
    if (!j.print) {
      std::string out = B + (j.target == EmitObj ? ".o" : j.target == EmitLib ? ".so" : j.target == EmitJNI ? ".jar" : ".onnx.mlir");
      bool small = j.onlySmall && j.target < EmitObj;
      if (!small) {
        if (!after.count(out)) fail("missing-output", "success, but %s was not written", out.c_str());
        const std::string &d = after[out];
        if (j.target < EmitObj) { if (!checkIR(d, j, false, j.target >= EmitLLVMIR, why)) fail("bad-output", "success, but %s: %s", out.c_str(), why.c_str());
          if (g_main) { size_t p = d.find("\"onnx-mlir.compile_options\" = \""), q = p == std::string::npos ? p : d.find('"', p + 31); std::string o = p == std::string::npos ? "" : d.substr(p, q - p);
            if (o.find("-O" + std::to_string(j.level)) == std::string::npos || o.find(std::string("--") + tn) == std::string::npos || (!j.xopt.empty() && !injected && o.find("-Xopt=" + j.xopt) == std::string::npos)) fail("option-lost", "the options of the compilation are not recorded in %s: %s", out.c_str(), o.c_str());
            if (o.find(S) != std::string::npos || o.find("/") != std::string::npos) fail("path-recorded", "a directory of the host is recorded in %s", out.c_str()); } }
        else {
          std::string body; const char *k = j.target == EmitObj ? "OBJ" : j.target == EmitLib ? "LIB" : "JAR";
          if (!unpackFile(k, d, body)) fail("bad-output", "success, but %s is not complete", out.c_str());
          std::string sym = "sim_payload" + (j.wantTag == "NONE" ? "" : "_" + j.wantTag);
          if (body.find(";payload=" + j.payload + ";") == std::string::npos) fail("stale-output", "success, but %s was not made from this model", out.c_str());
          if (body.find("sym=" + sym + ";") == std::string::npos) fail("wrong-tag", "success, but the symbols of %s do not carry tag %s: %s", out.c_str(), j.wantTag.c_str(), body.substr(0, 60).c_str());
          if (body.find("triple=" ) == std::string::npos || body.find("layout=yes") == std::string::npos) fail("bad-output", "no target description reached the tools");
          for (const char *t : {"opt=", "llc="}) { size_t p = body.find(t); std::string o = body.substr(p, body.find(';', p) - p); bool opt = !strcmp(t, "opt=");
            const std::string &x = opt ? j.xopt : j.xllc; if (!x.empty() && !injected && o.find(x + ",") == std::string::npos) fail("option-lost", "option %s did not reach %s", x.c_str(), opt ? "opt" : "llc");
            if (o.find("-O" + std::to_string(j.level) + ",") == std::string::npos) fail("option-lost", "the optimisation level did not reach %s: %s", opt ? "opt" : "llc", o.c_str()); }
          { size_t p = body.find("llc="); std::string o = body.substr(p, body.find(';', p) - p); if (o.find(std::string("--code-model=") + (j.large ? "large" : "small") + ",") == std::string::npos) fail("option-lost", "the model size did not reach llc: %s", o.c_str()); }
          if (j.target == EmitLib && !j.lib.empty() && body.find("-l" + j.lib + ",") == std::string::npos) fail("option-lost", "library %s was not linked", j.lib.c_str());
          if (j.target != EmitObj && body.find("-lcruntime,") == std::string::npos) fail("option-lost", "the runtime was not linked");
          if (j.target == EmitJNI) { if (body.find("runtime=" + std::to_string(g_ver) + ";") != 0) fail("stale-output", "the archive does not hold the installed Java runtime"); if (body.find("member=jnidummy.c.o;") == std::string::npos) fail("bad-output", "the archive's library lacks the bridge"); }
        }
      }
      if (j.target < EmitLLVMIR && !checkIR(after[B + ".tmp"], j, true, false, why)) fail("bad-output", "success, but %s.tmp: %s", B.c_str(), why.c_str());
      if (j.ml && !checkIR(after[B + ".input.mlir"], j, false, false, why)) fail("bad-output", "success, but %s.input.mlir: %s", B.c_str(), why.c_str());
      if (j.ml && j.target >= EmitObj && !checkIR(after[B + ".llvm.mlir"], j, false, true, why)) fail("bad-output", "success, but %s.llvm.mlir: %s", B.c_str(), why.c_str());
      if (j.target >= EmitObj) {
        std::string body;
        if (j.bc && (!readBitcode(after[B + ".unoptimized.bc"], body) || body.find(j.payload) == std::string::npos || !unpackFile("BC", after[B + ".bc"], body) || body.find(j.payload) == std::string::npos)) fail("bad-output", "success, but the preserved bitcode is not complete");
        if (j.ll && (after[B + ".ll"].find(j.payload) == std::string::npos || after[B + ".ll"].find("run_main_graph") == std::string::npos)) fail("bad-output", "success, but the preserved LLVM IR is not complete");
      }
    }
  } else {
    sim::probe(injected ? "failed after a fault" : "failed");
    int want = 0; const char *whyFail = nullptr;
    if (!injected) {
      if (j.badIn == 4) want = InvalidInputFileLink; else if (j.badIn == 2) want = InvalidInputFile; else if (g_importFails || j.badIn == 3) want = InvalidOnnxFormat; else if (j.badIn == 1) want = InvalidInputFileAccess; else if (j.badIn == 2) want = InvalidInputFile; else if (j.badIn == 4) want = InvalidInputFileLink; else if (j.badIn == 5) want = -1;
      else if (j.badOpt) want = j.badOpt == 3 ? -1 : InvalidCompilerOption;
      else if (g_passFails) want = CompilerFailure;
      else if (bad >= 0) { static const int C[] = {CompilerFailureInLLVMOpt, CompilerFailureInLLVMToObj, CompilerFailureInObjToLib, CompilerFailureInGenJniObj, CompilerFailureInGenJni, 0}; want = C[R[bad].kind]; }
      else fail("refused", "nothing failed and the compilation (%s) reports %d", tn, rc);
      if (want > 0 && rc != want) fail("wrong-code", "code %d reported where %d describes what failed (%s)", rc, want, bad >= 0 ? TOOL[R[bad].kind] : g_passFails ? "pass" : "input");
    } else if (bad < 0 && !g_passFails && !g_importFails && !j.badIn && rc == CompilerSuccess) fail("wrong-code", "fault without code");
  }
  if (bad >= 0) for (int i = bad + 1; i < nrec; i++) fail("continued", "%s was started after %s had failed", TOOL[R[i].kind], TOOL[R[bad].kind]);
  // what must not stay
  VS inter; if (!j.bc) { inter.push_back(B + ".unoptimized.bc"); inter.push_back(B + ".bc"); }
  if (j.target != EmitObj) inter.push_back(B + ".o");
  if (j.target == EmitJNI) { inter.push_back(dir + "/jnidummy.c.o"); inter.push_back(dir + "/libmodel.so"); }
  for (auto &i : inter) { std::string n = fs::path(i).lexically_normal().string(); auto a = after.find(n); auto b = before.find(n); if (a == after.end() || kept) continue; if (b != before.end() && b->second == a->second) continue; fail("left-behind", "%s: intermediate file %s stays (%s)", tn, n.c_str(), rc ? "failed" : "compiled"); }
  // text the driver writes itself is complete or absent, whatever the result
  if (rc && !kept) for (const char *e : {".onnx.mlir", ".tmp", ".llvm.mlir", ".input.mlir"}) { auto a = after.find(B + e); auto b = before.find(B + e); if (a == after.end() || (b != before.end() && b->second == a->second)) continue; if (!checkIR(a->second, j, !strcmp(e, ".tmp"), !strcmp(e, ".llvm.mlir") || (!strcmp(e, ".onnx.mlir") && j.target >= EmitLLVMIR), why)) fail("partial-file", "failed (%d), and %s%s stays: %s", rc, B.c_str(), e, why.c_str()); }
  // nothing else changes
  std::set<std::string> may; for (const char *e : {".unoptimized.bc", ".bc", ".o", ".so", ".jar", ".onnx.mlir", ".tmp", ".ll", ".llvm.mlir", ".input.mlir"}) may.insert(fs::path(B + e).lexically_normal().string());
  may.insert(fs::path(dir + "/jnidummy.c.o").lexically_normal().string()); may.insert(fs::path(dir + "/libmodel.so").lexically_normal().string());
  for (auto &a : after) if (!may.count(a.first)) { auto b = before.find(a.first); if (b == before.end()) fail("stray-file", "%s appeared", a.first.c_str()); if (b->second != a.second) fail("stray-change", "%s changed", a.first.c_str()); }
  for (auto &b : before) if (!after.count(b.first) && !may.count(b.first)) fail("stray-change", "%s is gone", b.first.c_str());
  sim::state(std::string(tn) + " " + std::to_string(rc) + " " + (bad >= 0 ? TOOL[R[bad].kind] : "-") + " " + std::to_string(bad >= 0 ? R[bad].plan.crashAt : -1) + (injected ? " fault" : "") + (j.ml ? "m" : "") + (j.bc ? "b" : "") + (j.print ? "p" : ""));
}
static void run() {
  sim::Env env; S = sim::scratch(); g_parent = getpid();
  R = (Rec *)mmap(nullptr, sizeof(Rec) * MAXR + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); nrecp = (int *)((char *)R + sizeof(Rec) * MAXR);
  for (const char *d : {"/w", "/w/out", "/in", "/lib", "/o"}) mkdir((S + d).c_str(), 0755);
  if (syscall(SYS_chdir, (S + "/w").c_str())) fail("harness", "cannot enter the scratch directory");
  setenv("ONNX_MLIR_LIBRARY_PATH", (S + "/lib").c_str(), 1); g_draw = drawPlan;
  sim::faultKinds({"open-for-writing-fails", "open-for-reading-fails", "open-interrupted", "write-fails", "write-interrupted", "write-short", "read-fails", "read-interrupted", "read-short", "close-fails", "remove-fails", "stat-fails", "chdir-fails", "getcwd-fails", "fork-fails", "wait-interrupted"});
  g_main = sim::chance(1, 2); int n = g_main ? 1 : 1 + sim::choose(4); std::string fixedTag, triple0; bool inited = false;
  if (!g_main) { // a program that calls the library: options once, then models
    emissionTarget = EmitLib; preserveBitcode = sim::chance(1, 5); preserveLLVMIR = sim::chance(1, 5); preserveMLIR = sim::chance(1, 5); doNotEmitFullMLIRCode = sim::chance(1, 8); preserveLocations = sim::chance(1, 6);
    triple0 = mtriple; sim::Sut s; initCompilerConfig();
  }
  for (int k = 0; k < n + (g_main ? 0 : 1); k++) {
    bool last = k == n; if (last) { sim::armFaults(false); g_sane = true; }
    Job j{}; j.target = TARGETS[sim::choose(7)]; j.payload = "model-" + std::to_string(k) + "-" + std::to_string(sim::choose(1000)); j.big = sim::chance(1, 3) ? 101 + sim::choose(400) : 2 + sim::choose(20);
    if (sim::chance(1, 12)) j.big = 20000 + sim::choose(20000);
    j.mlirIn = sim::chance(1, 3); static const char *NAMES[] = {"m", "net.v2", "Model_A", "a-b"}; std::string nm = NAMES[sim::choose(4)];
    j.in = S + "/in/" + nm + (j.mlirIn ? ".mlir" : ".onnx"); j.badIn = last || !sim::chance(1, 12) ? 0 : 1 + sim::choose(5);
    g_ver = k + 1; spill(S + "/lib/javaruntime.jar", pack("JAR", "runtime=" + std::to_string(g_ver) + ";")); spill(S + "/lib/libjniruntime.a", pack("AR", "jni runtime;"));
    std::string text = j.mlirIn ? irText(j) : pack("ONNX", j.payload + "|" + std::to_string(j.big));
    unlink(j.in.c_str()); unlink((S + "/in/other").c_str());
    if (j.badIn == 2) j.in = S + "/in/" + nm + ".txt"; if (j.badIn == 3 && j.mlirIn) j.badIn = 5; if (j.badIn == 5 && !j.mlirIn) j.badIn = 3;
    if (j.badIn == 3 || j.badIn == 5) text.resize(text.size() / 2);
    if (j.badIn != 1) spill(j.in, text);
    if (j.badIn == 4) { unlink((S + "/in/other").c_str()); (void)!link(j.in.c_str(), (S + "/in/other").c_str()); }
    if (j.badIn == 1 && j.mlirIn) j.badIn = 1;
    static const char *BASES[] = {"out/r", "x", "/o/r", "./out/s.t"}; unsigned bi = sim::choose(5); if (!g_main && bi == 4) bi = 0;
    j.base = bi == 4 ? j.in.substr(0, j.in.find_last_of('.')) : bi == 2 ? S + "/o/r" : BASES[bi];
    j.badOpt = last || !sim::chance(1, 15) ? 0 : 1 + sim::choose(3); if (j.badOpt == 2 && bi == 4) j.badOpt = 1; if (j.badOpt == 2) j.base = "out/r s";
    std::string lf = fs::path(j.base).filename().string(); for (auto &c : lf) c = tolower(c);
    j.level = 0; g_passFails = !last && sim::chance(1, 15); g_importFails = !last && !j.mlirIn && sim::chance(1, 20);
    VS av = {"onnx-mlir"};
    if (g_main) {
      j.print = sim::chance(1, 20); j.bc = sim::chance(1, 5); j.ll = sim::chance(1, 5); j.ml = sim::chance(1, 5); j.onlySmall = sim::chance(1, 10); j.locs = sim::chance(1, 8);
      j.level = sim::choose(4); if (sim::chance(1, 3) && j.badOpt != 2) j.tag = sim::chance(1, 3) ? "NONE" : "tag.1-x"; if (j.badOpt == 1) j.tag = "No Tag";
      if (j.badOpt == 3) av.push_back("--mtriple=nosuch-unknown-target");
      av.push_back("-j=1"); av.push_back(std::string("--") + TNAME[j.target]); av.push_back("-O" + std::to_string(j.level));
      bool joined = bi == 4; if (bi != 4) { if (sim::chance(1, 2)) { av.push_back("-o=" + j.base); joined = true; } else { av.push_back("-o"); av.push_back(j.base); } }
      if (j.print) av.push_back("--printIR"); if (j.bc) av.push_back("--preserveBitcode"); if (j.ll) av.push_back("--preserveLLVMIR"); if (j.ml) av.push_back("--preserveMLIR"); if (j.onlySmall) av.push_back("--do-not-emit-full-mlir-code"); if (j.locs) av.push_back("--preserveLocations");
      if (!j.tag.empty()) av.push_back("--tag=" + j.tag);
      if (sim::chance(1, 6)) { j.shape = 3 + sim::choose(5); av.push_back("--shapeInformation=" + std::string(sim::chance(1, 2) ? "0:" : "-1:") + std::to_string(j.shape)); } if (sim::chance(1, 6)) { j.large = true; av.push_back("--modelSize=large"); }
      if (sim::chance(1, 4)) { j.xopt = "--sim-opt=1"; av.push_back("-Xopt=" + j.xopt); } if (sim::chance(1, 4)) { j.xllc = "--sim-llc=2"; av.push_back("-Xllc=" + j.xllc); } if (sim::chance(1, 4)) { j.lib = "extra1"; av.push_back("-lextra1"); }
      if (joined && sim::chance(1, 6)) { j.xopt = "--sim-opt=3"; spill(S + "/in/omconfig.json", "{\"compile_options\": [\"-Xopt=--sim-opt=3\"]}"); }
      else if (sim::chance(1, 10)) { j.xopt = "--sim-opt=5"; spill(S + "/in/opts.json", "{\"compile_options\": [\"-Xopt=--sim-opt=5\"]}"); av.push_back("--config-file=" + S + "/in/opts.json"); }
      if (j.xllc.empty() && sim::chance(1, 6)) { j.xllc = "--sim-llc=4"; setenv("ONNX_MLIR_FLAGS", "-Xllc=--sim-llc=4", 1); }
      else if (j.lib.empty() && sim::chance(1, 8)) { j.lib = "extra2"; setenv("SIM_FLAGS", "-lextra2", 1); av.push_back("--customEnvFlags=SIM_FLAGS"); }
      av.insert(sim::chance(1, 2) ? av.end() : av.begin() + 1, j.in);
    } else { j.level = sim::choose(4); OptimizationLevel = (onnx_mlir::OptLevel)j.level; j.bc = preserveBitcode; j.ll = preserveLLVMIR; j.ml = preserveMLIR; j.onlySmall = doNotEmitFullMLIRCode; j.locs = preserveLocations; if (sim::chance(1, 6)) { fixedTag = sim::chance(1, 2) ? "fixed" : ""; modelTag = fixedTag; } j.tag = fixedTag;
      if (j.badOpt == 2 && !fixedTag.empty()) j.badOpt = 1; if (j.badOpt == 1) modelTag = j.tag = "No Tag"; if (j.badOpt == 3) setTargetTriple("nosuch-unknown-target"); }
    j.wantTag = j.tag.empty() ? lf : j.tag;
    int from = nrec; unsigned h0 = g_hard, u0 = g_unlinkFails; auto before = snapshot();
    sim::op("compile %s to %s base %u", j.mlirIn ? "mlir" : "onnx", TNAME[j.target], bi);
    int rc = compile(j, av); if (!g_main && j.badOpt == 3) setTargetTriple(triple0); if (!g_main && j.badOpt == 1) modelTag = fixedTag; sim::advance(1000000000ull);
    std::string t; for (int i = from; i < nrec; i++) t += std::string(" ") + TOOL[R[i].kind] + (R[i].good ? "" : "!");
    sim::ev("rc %d tools%s", rc, t.c_str());
    char cw[4096]; long cn = syscall(SYS_getcwd, cw, sizeof cw); bool chd = sim::faultsFiredOf("chdir-fails"); if (cn > 0 && !chd && S + "/w" != cw && fs::canonical(S + "/w").string() != cw) fail("working-directory", "the working directory changed to %s", show(cw).c_str());
    check(j, rc, before, from, h0, u0);
    if (chd) syscall(SYS_chdir, (S + "/w").c_str());
  }
  sim::endRun();
}
static void warm() { llvm::InitializeAllTargets(); llvm::InitializeAllTargetMCs(); llvm::InitializeAllAsmPrinters(); llvm::InitializeAllAsmParsers(); MLIRContext c(MLIRContext::Threading::DISABLED); c.loadDialect<func::FuncDialect, LLVM::LLVMDialect>(); Job j{}; j.big = 3; j.payload = "w"; std::string w; checkIR(irText(j), j, false, false, w); }
int main(int argc, char **argv) { sim::Options o; o.cpuLimit = 60; o.needScratch = true; return sim::simMain(argc, argv, o, warm, run); }
