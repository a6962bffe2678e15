// P27: importing constants. The real importer of tensors, pool and constants
// over the real MLIR and protobuf libraries and a model directory on disk whose
// files are opened, read, mapped and inspected through failing system calls.
// A stop of the import (abort, exit, failed assertion) ends that import only.
#include "simkit.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/MLIRContext.h"
#include "llvm/Support/Signals.h"
#include "src/Builder/FrontendDialectHelper.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttributeStorage.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"
#include "src/Dialect/ONNX/ONNXOps/OpHelper.hpp"
#include "src/Dialect/ONNX/OnnxElementsAttrBuilder.hpp"
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace mlir;
using namespace onnx_mlir;
using sim::fail;
typedef std::string Str; typedef std::vector<int64_t> Shape;

// ------------------------------------------------------------ the system calls of an import
static Str S, g_model; static std::map<int, Str> g_open; static unsigned g_hard, g_said; static jmp_buf g_stop; static bool g_canStop; static const char *g_how; static sim::Sut *g_sut;
static bool ours(const char *p) { return sim::active() && sim::inSut() && p && (p[0] != '/' || !strncmp(p, S.c_str(), S.size())); }
static Str real(const Str &p) { char b[4200]; char *r; { sim::Env e; r = realpath(p.c_str(), b); } return r ? r : ""; }
static int doOpen(int at, const char *p, int fl, int mode) {
  if (!ours(p)) return syscall(SYS_openat, at, p, fl, mode);
  sim::step(2000);
  if (sim::fault("open-interrupted")) { errno = EINTR; return -1; }
  if (sim::fault("open-fails")) { g_hard++; static const int E[] = {EACCES, EMFILE, EIO, ENOENT, ENOMEM}; errno = E[sim::choose(5)]; return -1; }
  int fd = syscall(SYS_openat, at, p, fl, mode); if (fd < 0) return fd;
  sim::Env e; char l[64], b[4200]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, sizeof b - 1); b[n > 0 ? n : 0] = 0; struct stat st;
  if ((fl & O_ACCMODE) != O_RDONLY) fail("model-changed", "the import opened a file of the model for writing");
  if (strncmp(b, g_model.c_str(), g_model.size()) || (b[g_model.size()] != '/' && b[g_model.size()])) fail("escape", "the import opened a file outside the directory of the model");
  if (syscall(SYS_fstat, fd, &st) == 0 && S_ISREG(st.st_mode) && st.st_nlink > 1) fail("escape", "the import opened a file that has another name outside the directory of the model");
  g_open[fd] = b; return fd;
}
static bool mine(int fd) { return sim::active() && sim::inSut() && g_open.count(fd); }
static int statFault(const char *p) { if (!ours(p)) return 0; sim::step(2000); if (sim::fault("stat-fails")) { g_hard++; static const int E[] = {EACCES, EIO, ENOMEM}; errno = E[sim::choose(3)]; return -1; } return 0; }
extern "C" {
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doOpen(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doOpen(AT_FDCWD, p, fl, m); }
int openat(int at, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doOpen(at, p, fl, m); }
int openat64(int at, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doOpen(at, p, fl, m); }
static ssize_t doRead(int fd, void *b, size_t n, off_t o, bool at) {
  if (mine(fd) && n) {
    sim::step(2000);
    if (sim::fault("read-interrupted")) { errno = EINTR; return -1; }
    if (sim::fault("read-fails")) { g_hard++; errno = EIO; return -1; }
    if (n > 1 && sim::fault("read-short")) n = 1 + sim::choose(n - 1);
  }
  return at ? syscall(SYS_pread64, fd, b, n, o) : syscall(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return doRead(fd, b, n, 0, false); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return doRead(fd, b, n, o, true); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return doRead(fd, b, n, o, true); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  if (fd >= 0 && mine(fd)) { sim::step(2000); if (sim::fault("map-fails")) { g_hard++; static const int E[] = {ENOMEM, ENODEV, EAGAIN}; errno = E[sim::choose(3)]; return MAP_FAILED; } sim::probe("mapped"); }
  return (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o);
}
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { return mmap(a, n, pr, fl, fd, o); }
int stat(const char *p, struct stat *s) { return statFault(p) ? -1 : syscall(SYS_stat, p, s); }
int stat64(const char *p, struct stat64 *s) { return statFault(p) ? -1 : syscall(SYS_stat, p, s); }
int lstat(const char *p, struct stat *s) { return statFault(p) ? -1 : syscall(SYS_lstat, p, s); }
int lstat64(const char *p, struct stat64 *s) { return statFault(p) ? -1 : syscall(SYS_lstat, p, s); }
static int doFstat(int fd, void *s) { if (mine(fd)) { sim::step(2000); if (sim::fault("fstat-fails")) { g_hard++; errno = EIO; return -1; } } return syscall(SYS_fstat, fd, s); }
int fstat(int fd, struct stat *s) { return doFstat(fd, s); }
int fstat64(int fd, struct stat64 *s) { return doFstat(fd, s); }
int close(int fd) { if (sim::active() && g_open.count(fd)) { sim::Env e; g_open.erase(fd); } return syscall(SYS_close, fd); }
ssize_t write(int fd, const void *b, size_t n) { if (fd == 2 && sim::active() && sim::inSut()) { g_said += n; return n; } return syscall(SYS_write, fd, b, n); }
static void stop(const char *how) { if (sim::active() && g_canStop) { g_canStop = false; g_how = how; longjmp(g_stop, 1); } }
void abort() { stop("abort"); signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(134); }
void exit(int c) { stop(c ? "exit" : "exit-0"); fflush(nullptr); _exit(c); }
void __assert_fail(const char *x, const char *, unsigned, const char *) { if (sim::active() && g_canStop) { g_said++; stop("assertion"); } dprintf(2, "assertion failed: %s\n", x); abort(); }
}

// ------------------------------------------------------------ a dialect to hold the pool and the string type
class HostDialect : public Dialect {
public:
  explicit HostDialect(MLIRContext *c) : Dialect(getDialectNamespace(), c, TypeID::get<HostDialect>()) { addTypes<ONNXStringType>(); addAttributes<DisposableElementsAttr>(); addInterface<DisposablePool>(c); }
  static StringRef getDialectNamespace() { return "host"; }
  Type parseType(DialectAsmParser &) const override { return {}; }
  void printType(Type, DialectAsmPrinter &) const override {}
  MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(HostDialect)
};

onnx_mlir::OnnxElementsAttrBuilder::OnnxElementsAttrBuilder(MLIRContext *c) : ElementsAttrBuilder(*c->getLoadedDialect<HostDialect>()->getRegisteredInterface<DisposablePool>()) {}
static MLIRContext *C;
static void freshContext() { C = new MLIRContext(MLIRContext::Threading::DISABLED); C->getOrLoadDialect<HostDialect>(); }

// ------------------------------------------------------------ tensors
typedef onnx::TensorProto TP;
struct Ty { int onnx; unsigned w; int cls; }; // cls 0 float 1 signed 2 unsigned 3 bool
static const Ty TY[] = {{TP::FLOAT, 4, 0}, {TP::UINT8, 1, 2}, {TP::INT8, 1, 1}, {TP::UINT16, 2, 2}, {TP::INT16, 2, 1}, {TP::INT32, 4, 1}, {TP::INT64, 8, 1}, {TP::BOOL, 1, 3}, {TP::FLOAT16, 2, 0}, {TP::DOUBLE, 8, 0}, {TP::UINT32, 4, 2}, {TP::UINT64, 8, 2}, {TP::BFLOAT16, 2, 0}, {TP::FLOAT8E4M3FN, 1, 0}, {TP::FLOAT8E4M3FNUZ, 1, 0}, {TP::FLOAT8E5M2, 1, 0}, {TP::FLOAT8E5M2FNUZ, 1, 0}};
static const int NTY = sizeof TY / sizeof *TY;
static Type mlirTy(int k) {
  Builder b(C);
  switch (TY[k].onnx) {
  case TP::FLOAT: return b.getF32Type(); case TP::DOUBLE: return b.getF64Type(); case TP::FLOAT16: return b.getF16Type(); case TP::BFLOAT16: return b.getBF16Type();
  case TP::FLOAT8E4M3FN: return b.getType<Float8E4M3FNType>(); case TP::FLOAT8E4M3FNUZ: return b.getType<Float8E4M3FNUZType>(); case TP::FLOAT8E5M2: return b.getType<Float8E5M2Type>(); case TP::FLOAT8E5M2FNUZ: return b.getType<Float8E5M2FNUZType>();
  case TP::BOOL: return b.getI1Type(); default: return TY[k].cls == 2 ? b.getIntegerType(TY[k].w * 8, false) : b.getIntegerType(TY[k].w * 8);
  }
}
static uint32_t g_lcg;
static unsigned char rnd() { g_lcg = g_lcg * 1664525 + 1013904223; return g_lcg >> 24; }
static Str someBytes(int k, size_t n) {
  g_lcg = 1 + sim::choose(1u << 30); Str b(n * TY[k].w, 0); int style = sim::choose(4);
  if (style == 0 && n) { Str e(TY[k].w, 0); for (auto &c : e) c = TY[k].cls == 3 ? rnd() & 1 : rnd(); for (size_t i = 0; i < n; i++) b.replace(i * e.size(), e.size(), e); return b; } // the same value everywhere
  for (auto &c : b) { c = rnd(); if (TY[k].cls == 3) c &= 1; }
  return b;
}
static uint64_t bitsAt(const Str &b, unsigned w, size_t i) { uint64_t v = 0; memcpy(&v, b.data() + i * w, w); return v; }
static int64_t sext(uint64_t v, unsigned w) { return w == 8 ? (int64_t)v : (int64_t)(v << (64 - 8 * w)) >> (64 - 8 * w); }
static Str txt(const Shape &s) { Str r; for (auto d : s) r += (r.empty() ? "" : "x") + std::to_string(d); return r.empty() ? "scalar" : r; }
static Shape someShape(size_t &n, bool big) {
  Shape s; n = 1;
  if (big) { switch (sim::choose(3)) { case 0: s = {4096 + (long)sim::choose(40000)}; break; case 1: s = {64, 65 + (long)sim::choose(400)}; break; default: s = {16384}; } }
  else { int r = sim::choose(5); for (int i = 0; i < r; i++) s.push_back(1 + sim::choose(r > 2 ? 4 : 9)); if (sim::chance(1, 16) && r) s[sim::choose(r)] = 0; }
  for (auto d : s) n *= d; return s;
}
static void typed(TP &t, int k, const Str &b, size_t n) {
  unsigned w = TY[k].w;
  for (size_t i = 0; i < n; i++) {
    uint64_t v = bitsAt(b, w, i);
    switch (TY[k].onnx) {
    case TP::FLOAT: { float f; uint32_t u = v; memcpy(&f, &u, 4); t.add_float_data(f); } break;
    case TP::DOUBLE: { double f; memcpy(&f, &v, 8); t.add_double_data(f); } break;
    case TP::INT64: t.add_int64_data((int64_t)v); break;
    case TP::UINT32: case TP::UINT64: t.add_uint64_data(v); break;
    default: t.add_int32_data(TY[k].cls == 1 ? (int32_t)sext(v, w) : (int32_t)v);
    }
  }
}
static void entry(TP &t, const Str &k, const Str &v) { auto *e = t.add_external_data(); e->set_key(k); e->set_value(v); }
static void put(const Str &path, const Str &data) { sim::Env e; FILE *f = fopen(path.c_str(), "w"); if (!f) abort(); fwrite(data.data(), 1, data.size(), f); fclose(f); }
static Str filler(size_t n) { g_lcg = 7 + n; Str b(n, 0); for (auto &c : b) c = rnd(); return b; }

// what a tensor must do
enum Want { RIGHT, EITHER, STOP }; // its values; its values or a stop; a stop
struct T { TP tp; int k; Shape s; size_t n; Str bytes; std::vector<Str> strs; Want want = RIGHT; Str what; ElementsAttr a; bool isStr = false; };
static int g_files; struct Old { Str loc, content; }; static std::vector<Old> g_old[2]; static int g_which; static Str g_models[2];
static Str fileName() {
  static const char *N[] = {"w.bin", "weights.data", "a b.bin", "..bin", "x..y", "...", "caf\xc3\xa9", "1", ".hidden", "sub/w.bin", "sub/deep/w", "./w", "sub//w", "sub/./w"};
  Str n = N[sim::choose(14)]; if (sim::chance(1, 20)) n = Str(200, 'n'); return n + std::to_string(g_files++);
}
static Str number(uint64_t v) { Str s = std::to_string(v); if (sim::chance(1, 12)) s = "0" + s; return s; }
static void external(T &t, bool bad) {
  TP &p = t.tp; p.set_data_location(TP::EXTERNAL); Str loc = fileName(), dir = g_model + "/", data = t.bytes; size_t len = data.size();
  size_t before = sim::chance(1, 2) ? 0 : sim::chance(1, 2) ? 4096 * (1 + sim::choose(5)) : sim::choose(20000), after = sim::chance(1, 2) ? 0 : sim::chance(1, 3) ? 4096 : sim::choose(20000);
  bool giveLen = sim::chance(2, 3), giveOff = before || sim::chance(1, 2); if (after) giveLen = giveLen || sim::chance(3, 4);
  uint64_t off = before; Str offS = number(off), lenS = number(len), content = filler(before) + data + filler(after), path = dir + loc; bool make = true, giveLoc = true;
  t.what = "external";
  auto &olds = g_old[g_which];
  if (!bad && !olds.empty() && sim::chance(1, 3)) { // in a file that is there already
    Old &o = olds[sim::choose(olds.size())]; loc = o.loc; path = dir + loc; content = o.content; make = false; t.what = "external, shared file";
    if (content.size() >= len) { off = sim::choose(content.size() - len + 1); if (sim::chance(1, 3)) off = 0; Str there = content.substr(off, len); if (TY[t.k].cls == 3) for (auto &c : there) if (c & ~1) { off = content.size(); break; } if (off < content.size() || !len) t.bytes = there; }
    else off = content.size();
    if (off == content.size() && len) { content += t.bytes; o.content = content; make = true; }
    offS = number(off); giveOff = true; giveLen = giveLen || off + len < content.size();
  } else if (!bad && !g_old[1 - g_which].empty() && sim::chance(1, 3)) { // the name of a file of the other model
    Str l = g_old[1 - g_which][sim::choose(g_old[1 - g_which].size())].loc; bool used = false; for (auto &o : olds) used |= o.loc == l; if (!used) { loc = l; path = dir + loc; t.what = "external, same name"; }
  }
  if (t.what.find("shared") == Str::npos)
  if (!giveLen && (after && t.what == "external")) { t.want = EITHER; t.what = "external, longer than needed"; }
  if (bad) {
    t.want = STOP;
    switch (sim::choose(24)) {
    case 0: make = false; t.what = "missing file"; break;
    case 1: { size_t cut = 1 + (len ? sim::choose(len) : 0); content.resize(before + len > cut ? before + len - cut : 0); t.what = "file too short"; if (!len) t.want = EITHER; } break;
    case 2: content.resize(before ? sim::choose(before + 1) : 0); t.what = "file ends before the data"; giveOff = true; if (!len) t.want = EITHER; break;
    case 3: content.clear(); t.what = "empty file"; if (!len) t.want = EITHER; break;
    case 4: { size_t l = len ? sim::choose(len) : 0; giveLen = true; lenS = std::to_string(l); t.what = "length too small"; if (!len) t.want = EITHER; } break;
    case 5: giveLen = true; lenS = std::to_string(len + 1 + sim::choose(after + 1)); t.what = "length too big"; t.want = after && content.size() >= off + std::stoull(lenS) ? EITHER : STOP; if (!len) t.want = EITHER; break;
    case 6: giveOff = true; offS = "-1"; t.what = "negative offset"; break;
    case 7: { giveLen = true; static const char *L[] = {"-1", "-8", "18446744073709551615", "18446744073709551616", "99999999999999999999999"}; lenS = L[sim::choose(5)]; t.what = "length " + lenS; } break;
    case 8: { giveOff = true; static const char *L[] = {"18446744073709551615", "18446744073709551616", "9223372036854775808", "99999999999999999999999", "18446744073709547520"}; offS = L[sim::choose(5)]; t.what = "offset " + offS; } break;
    case 9: { giveOff = true; static const char *L[] = {"", "abc", "x", "-", "zero"}; offS = L[sim::choose(5)]; t.what = "offset \"" + offS + "\""; } break;
    case 10: { giveLen = true; static const char *L[] = {"", "abc", "x", "-", "all"}; lenS = L[sim::choose(5)]; t.what = "length \"" + lenS + "\""; } break;
    case 11: giveOff = true; offS += sim::chance(1, 2) ? "x" : "e3"; t.what = "offset with trailing text"; break;
    case 12: giveLen = true; lenS += sim::chance(1, 2) ? "kB" : ".5"; t.what = "length with trailing text"; break;
    case 13: path = S + "/outside/" + std::to_string(g_files); loc = path; t.what = "absolute path"; break;
    case 14: loc = "../outside/" + std::to_string(g_files); path = S + "/outside/" + std::to_string(g_files); t.what = "path through .."; break;
    case 15: loc = "sub/../../outside/" + std::to_string(g_files); path = S + "/outside/" + std::to_string(g_files); t.what = "path through .. in the middle"; break;
    case 16: { loc = "link" + std::to_string(g_files); path = S + "/outside/" + std::to_string(g_files); sim::Env e; (void)!symlink(path.c_str(), (dir + loc).c_str()); t.what = "link to a file outside"; } break;
    case 17: { Str d = "dlink" + std::to_string(g_files); loc = d + "/" + std::to_string(g_files); path = S + "/outside/" + std::to_string(g_files); sim::Env e; (void)!symlink((S + "/outside").c_str(), (dir + d).c_str()); t.what = "link to a directory outside"; } break;
    case 18: { Str d = "sub/dl" + std::to_string(g_files); loc = d + "/outside/" + std::to_string(g_files); path = S + "/outside/" + std::to_string(g_files); sim::Env e; (void)!symlink("../..", (dir + d).c_str()); t.what = "link upwards"; } break;
    case 19: { loc = "hard" + std::to_string(g_files); path = S + "/outside/" + std::to_string(g_files); put(path, content); sim::Env e; (void)!link(path.c_str(), (dir + loc).c_str()); make = false; t.what = "second name of a file outside"; } break;
    case 20: loc = "sub"; make = false; t.what = "a directory"; if (!len) t.want = EITHER; break;
    case 21: giveLoc = false; t.what = "no location"; break;
    case 22: { Str d = "indir" + std::to_string(g_files); path = dir + "sub/i" + std::to_string(g_files); loc = d + "/i" + std::to_string(g_files); sim::Env e; (void)!symlink("sub", (dir + d).c_str()); t.want = EITHER; t.what = "link to a directory inside"; } break;
    default: loc = ""; make = false; t.what = "empty location"; break;
    }
  }
  std::vector<std::pair<Str, Str>> es; if (giveLoc) es.push_back({"location", loc}); if (giveOff) es.push_back({"offset", offS}); if (giveLen) es.push_back({"length", lenS}); if (sim::chance(1, 6)) es.push_back({"checksum", "da39a3ee5e6b4b0d3255bfef95601890afd80709"});
  for (size_t i = es.size(); i > 1; i--) std::swap(es[i - 1], es[sim::choose(i)]);
  for (auto &e : es) entry(p, e.first, e.second);
  if (make) { put(path, content); if (!bad && t.what != "external, shared file") olds.push_back({loc, content}); }
}
static T someTensor() {
  T t; bool bad = sim::chance(1, 2); t.tp.set_name("t"); t.k = sim::choose(NTY); t.s = someShape(t.n, sim::chance(1, 5));
  if (sim::chance(1, 14)) { // strings
    t.isStr = true; t.tp.set_data_type(TP::STRING); if (t.n > 200) { t.s = {3}; t.n = 3; }
    static const char *W[] = {"", "a", "onnx", "caf\xc3\xa9", "a longer string with spaces", "1"}; bool same = sim::chance(1, 4); Str one = W[sim::choose(6)];
    for (size_t i = 0; i < t.n; i++) t.strs.push_back(same ? one : W[sim::choose(6)]);
    size_t m = t.n; t.what = "strings";
    if (bad) { t.want = STOP; switch (sim::choose(5)) { case 0: m = t.n ? sim::choose(t.n) : 1; t.what = "too few strings"; break; case 1: m = t.n + 1 + sim::choose(3); t.what = "too many strings"; break; case 2: t.tp.set_raw_data("xyz"); t.what = "raw strings"; break; case 3: m = t.n == 1 ? 2 : 1; t.what = "one string"; break; default: t.tp.set_data_location(TP::EXTERNAL); entry(t.tp, "location", "w"); t.what = "external strings"; } }
    for (size_t i = 0; i < m; i++) t.tp.add_string_data(i < t.strs.size() ? t.strs[i] : "more");
    for (auto d : t.s) t.tp.add_dims(d); return t;
  }
  t.tp.set_data_type(TY[t.k].onnx); t.bytes = someBytes(t.k, t.n); unsigned w = TY[t.k].w;
  if (bad && sim::chance(1, 8)) { // the type or the shape is not one
    Str b = t.bytes; if (sim::chance(1, 2)) t.tp.set_raw_data(b); else typed(t.tp, t.k, b, t.n); t.want = STOP;
    switch (sim::choose(3)) {
    case 0: { static const int D[] = {0, 14, 15, 99, -1, 1000}; t.tp.set_data_type(D[sim::choose(6)]); t.what = "type " + std::to_string(t.tp.data_type()); } break;
    case 1: { Shape d = t.s; if (d.empty()) d.push_back(1); d[sim::choose(d.size())] = sim::chance(1, 2) ? -1 : -(long)sim::choose(1000) - 2; t.s = d; t.what = "negative dimension"; } break;
    default: t.s = sim::chance(1, 2) ? Shape{1L << 32, 1L << 32} : sim::chance(1, 2) ? Shape{1L << 62, 4, 1} : Shape{1L << (64 - __builtin_ctz(TY[t.k].w) - 1), 2}; t.tp.clear_raw_data(); t.tp.clear_float_data(); t.tp.clear_int32_data(); t.tp.clear_int64_data(); t.tp.clear_uint64_data(); t.tp.clear_double_data(); if (sim::chance(1, 2)) t.tp.set_raw_data(""); t.what = "more elements than can be counted";
    }
    for (auto d : t.s) t.tp.add_dims(d); return t;
  }
  for (auto d : t.s) t.tp.add_dims(d);
  if (sim::chance(1, 8)) t.tp.set_data_location(TP::DEFAULT); // said explicitly
  switch (sim::choose(4)) {
  case 0: {
    t.what = "raw"; Str b = t.bytes;
    if (bad) { t.want = STOP; switch (sim::choose(5)) {
      case 0: if (b.size()) b.resize(b.size() - 1); else b = "x"; t.what = "raw data one byte short"; break;
      case 1: b += "x"; t.what = "raw data one byte long"; break;
      case 2: b.resize(t.n ? sim::choose(t.n) * w : w); t.what = "too little raw data"; break;
      case 3: b += filler(w * (1 + sim::choose(4))); t.what = "too much raw data"; break;
      default: b = t.n == 1 ? filler(2 * w) : filler(w); t.what = "raw data of another shape"; } }
    t.tp.set_raw_data(b);
  } break;
  case 1: {
    t.what = "typed"; size_t m = t.n; Str b = t.bytes; int k = t.k;
    if (bad) { t.want = STOP; switch (sim::choose(4)) {
      case 0: m = t.n ? sim::choose(t.n) : 1; t.what = "too few elements"; break;
      case 1: m = t.n + 1 + sim::choose(4); t.what = "too many elements"; break;
      case 2: m = 0; t.what = "no elements"; if (!t.n) t.want = RIGHT; break;
      default: k = TY[t.k].onnx == TP::FLOAT ? 5 : 0; t.what = "elements in another field"; if (!t.n) t.want = RIGHT; } }
    if (b.size() < m * 8) b += filler(m * 8 - b.size() + 8); typed(t.tp, k, b, m);
  } break;
  default: external(t, bad); break;
  }
  return t;
}

// ------------------------------------------------------------ importing and reading
static Str g_dir;
static void import(T &t, int i) {
  g_hard = 0; g_said = 0; g_open.clear(); sim::ev("import %d: %s, %s, type %d", i, t.what.c_str(), txt(t.s).c_str(), t.tp.data_type());
  bool stopped = false; g_how = ""; sim::Sut *s = nullptr;
  if (setjmp(g_stop) == 0) {
    g_canStop = true; g_sut = s = new sim::Sut; t.a = onnxTensorProtoToElmAttr(C, g_dir, t.tp); delete s; g_sut = nullptr; g_canStop = false;
  } else { stopped = true; if (g_sut) { delete g_sut; g_sut = nullptr; } }
  bool none = !stopped && !t.a; sim::ev("%s%s", stopped ? "stopped: " : none ? "nothing" : "imported", g_how);
  if (!strcmp(g_how, "exit-0")) fail("continued", "%s: the import ended the compilation with success", t.what.c_str());
  if (stopped || none) {
    if (t.want == RIGHT && !g_hard) fail("refused", "%s, %s, type %d: the import stopped (%s)", t.what.c_str(), txt(t.s).c_str(), t.tp.data_type(), g_how);
    if (!g_said) fail("silent-stop", "%s: the import stopped without a message", t.what.c_str());
    t.a = nullptr; sim::probe("stopped"); if (stopped) freshContext();
    for (auto &f : g_open) syscall(SYS_close, f.first); g_open.clear();
  } else {
    if (t.want == STOP) fail("continued", "%s, %s, type %d: the compilation continued", t.what.c_str(), txt(t.s).c_str(), t.tp.data_type());
    if (!g_open.empty()) fail("left-open", "%s: the import left its file open", t.what.c_str());
    sim::probe("imported"); if (t.tp.data_location() == TP::EXTERNAL) sim::probe("imported from a file");
  }
  t.tp.Clear(); sim::state(t.what + (stopped ? " stopped" : " imported"));
}
static void checkRead(T &t, MLIRContext *c) {
  if (!t.a) return; MLIRContext *keep = C; C = c;
  auto st = dyn_cast<RankedTensorType>(t.a.getType());
  if (!st || st.getShape() != ArrayRef<int64_t>(t.s)) fail("wrong-type", "%s: shape other than %s", t.what.c_str(), txt(t.s).c_str());
  if (t.isStr) {
    if (!isa<ONNXStringType>(st.getElementType())) fail("wrong-type", "strings: another element type");
    auto d = dyn_cast<DenseStringElementsAttr>(t.a); if (!d) fail("wrong-type", "strings: another attribute"); size_t i = 0;
    for (StringRef x : d.getValues<StringRef>()) { if (i >= t.strs.size() || x != t.strs[i]) fail("wrong-values", "string %zu of %s", i, txt(t.s).c_str()); i++; }
    if (i != t.n) fail("wrong-values", "%zu strings instead of %zu", i, t.n); C = keep; return;
  }
  if (st.getElementType() != mlirTy(t.k)) fail("wrong-type", "%s: another element type than onnx type %d", t.what.c_str(), TY[t.k].onnx);
  int cls = TY[t.k].cls; unsigned w = TY[t.k].w; int how = sim::choose(4); auto d = dyn_cast<DisposableElementsAttr>(t.a);
  if (how == 0 && d) {
    Str got; { sim::Sut s; ArrayBuffer<char> b = d.getRawBytes(); got.assign(b.get().begin(), b.get().end()); }
    if (got.size() != t.bytes.size()) fail("wrong-values", "%s, %s: %zu bytes instead of %zu", t.what.c_str(), txt(t.s).c_str(), got.size(), t.bytes.size());
    for (size_t i = 0; i < got.size(); i++) if (got[i] != t.bytes[i]) fail("wrong-values", "%s, %s, type %d: byte %zu differs", t.what.c_str(), txt(t.s).c_str(), TY[t.k].onnx, i);
  } else if (how == 1 && cls) {
    std::vector<WideNum> o(t.n); { sim::Sut s; readElementsWideNums(t.a, o); }
    for (size_t i = 0; i < t.n; i++) { uint64_t v = bitsAt(t.bytes, w, i); if (cls == 1) v = sext(v, w); if (o[i].u64 != v) fail("wrong-values", "%s, %s, type %d: element %zu differs, read as a number", t.what.c_str(), txt(t.s).c_str(), TY[t.k].onnx, i); }
  } else {
    ElementsAttr e = t.a; if (how == 2) { sim::Sut s; e = ElementsAttrBuilder::toDenseElementsAttr(t.a); }
    size_t i = 0; auto bad = [&] { fail("wrong-values", "%s, %s, type %d: element %zu differs, read %s", t.what.c_str(), txt(t.s).c_str(), TY[t.k].onnx, i, how == 2 ? "as a permanent constant" : "one by one"); };
    if (cls) { std::vector<APInt> o; { sim::Sut s; auto r = e.getValues<APInt>(); o.assign(r.begin(), r.end()); } for (auto &x : o) { if (i >= t.n || x.getZExtValue() != bitsAt(t.bytes, w, i)) bad(); i++; } }
    else {
      auto &sem = cast<FloatType>(st.getElementType()).getFloatSemantics(); std::vector<APFloat> o; { sim::Sut s; auto r = e.getValues<APFloat>(); o.assign(r.begin(), r.end()); }
      for (auto &x : o) { if (i >= t.n) bad(); APFloat f(sem, APInt(8 * w, bitsAt(t.bytes, w, i))); if (f.isNaN() ? !x.isNaN() : !f.bitwiseIsEqual(x)) bad(); i++; }
    }
    if (i != t.n) bad();
  }
  C = keep;
}
static void enter(int which) { // the model and how its directory is named
  g_which = which; g_model = g_models[which]; const char *sfx = which ? "2" : "";
  switch (sim::choose(5)) {
  case 0: g_dir = S + "/here" + sfx; break;
  case 1: { sim::Env e; (void)!chdir(g_model.c_str()); g_dir = ""; } break;
  case 2: { sim::Env e; (void)!chdir(g_model.c_str()); g_dir = "."; } break;
  case 3: { sim::Env e; (void)!chdir(S.c_str()); g_dir = Str("model") + sfx; } break;
  default: g_dir = S + "/model" + sfx;
  }
  sim::ev("model %d", which);
}
static void run() {
  freshContext(); S = sim::scratch(); g_files = 0; g_open.clear();
  for (int i = 0; i < 2; i++) {
    sim::Env e; Str m = S + (i ? "/model2" : "/model"), l = S + (i ? "/here2" : "/here"); g_old[i].clear(); mkdir(m.c_str(), 0777); mkdir((m + "/sub").c_str(), 0777); mkdir((m + "/sub/deep").c_str(), 0777); mkdir((S + "/outside").c_str(), 0777); (void)!symlink(m.c_str(), l.c_str()); g_models[i] = real(m);
  }
  sim::faultKinds({"open-interrupted", "open-fails", "read-interrupted", "read-fails", "read-short", "map-fails", "stat-fails", "fstat-fails"});
  int n = 1 + sim::choose(6); std::vector<T> ts; std::vector<MLIRContext *> cs;
  for (int i = 0; i < n; i++) { if (!i || sim::chance(1, 4)) enter(i ? 1 - g_which : 0); ts.push_back(someTensor()); T &t = ts.back(); MLIRContext *c = C; sim::op("tensor"); import(t, i); cs.push_back(c); if (t.a && sim::chance(1, 2)) checkRead(t, c); }
  { sim::Env e; (void)!chdir("/"); Str gone = S + "/gone"; rename((S + "/model").c_str(), gone.c_str()); rename((S + "/model2").c_str(), (gone + "2").c_str()); rename((S + "/outside").c_str(), (S + "/gone2").c_str()); }
  for (int i = 0; i < n; i++) checkRead(ts[i], cs[i]);
  sim::endRun();
}
int main(int argc, char **argv) {
  sim::Options o; o.cpuLimit = 20; o.needScratch = true; o.quiet = true;
  return sim::simMain(argc, argv, o, [] { freshContext(); mlirTy(0); TP t; t.add_dims(1); }, run);
}
