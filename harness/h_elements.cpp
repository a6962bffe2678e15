// P14 the pool of disposable constants, P25 operations on constants: the real
// pool, attributes and builder over the real MLIR library; MLIR's thread pool
// is simulated, every worker and client thread runs under the scheduler.
#include "simsched.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/MLIRContext.h"
#include "llvm/Support/ThreadPool.h"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttributeStorage.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp"
#include <deque>
#include <map>
#include <set>
using namespace mlir;
using namespace onnx_mlir;
using sim::fail;
typedef std::vector<int64_t> Shape;

// ------------------------------------------------------------ the simulated thread pool of MLIR
class SimPool : public llvm::ThreadPoolInterface {
  struct Job { std::function<void()> f; llvm::ThreadPoolTaskGroup *g; };
  std::deque<Job> q; std::map<llvm::ThreadPoolTaskGroup *, unsigned> busy; unsigned all = 0, said, real, workers = 0; bool stop = false; std::set<int> mine; char idle, done;
  bool finished(llvm::ThreadPoolTaskGroup *g) { return g ? busy[g] == 0 : all == 0; }
  void runOne() {
    Job j = std::move(q.front()); q.pop_front();
    if (sim::chance(1, 12)) { sim::countFault("worker-stalls"); sim::sleepUntil(sim::now() + 1 + sim::choose(1000)); }
    { sim::Sut s; j.f(); }
    j.f = nullptr; all--; if (j.g) busy[j.g]--; sim::wakeOn(&done, true); sim::wakeOn(&idle, true);
  }
  void work(llvm::ThreadPoolTaskGroup *g, bool waiting) {
    for (;;) {
      if (waiting && finished(g)) return;
      if (!q.empty()) { runOne(); continue; }
      if (stop && !waiting) return;
      sim::blockOn(&idle, "work");
    }
  }
  void asyncEnqueue(std::function<void()> t, llvm::ThreadPoolTaskGroup *g) override {
    sim::Env e; q.push_back({std::move(t), g}); all++; if (g) busy[g]++;
    if (workers < real) { char n[16]; snprintf(n, sizeof n, "worker%u", workers++); int id = sim::taskSpawn(n, [this] { sim::Env e; mine.insert(sim::taskSelf()); work(nullptr, false); }); (void)id; }
    sim::wakeOn(&idle, false); sim::yieldPoint("enqueue");
  }
public:
  SimPool(unsigned n) : said(n), real(n) { if (n > 1 && sim::chance(1, 4)) { real = 1 + sim::choose(n - 1); sim::countFault("fewer-workers"); } }
  ~SimPool() override {}
  void end() { sim::Env e; wait(); stop = true; sim::wakeOn(&idle, true); }
  void wait() override { sim::Env e; while (all) sim::blockOn(&done, "the pool"); }
  void wait(llvm::ThreadPoolTaskGroup &g) override { sim::Env e; if (mine.count(sim::taskSelf())) { work(&g, true); return; } while (busy[&g]) sim::blockOn(&done, "a group of tasks"); }
  unsigned getMaxConcurrency() const override { return said; }
};
class HostDialect : public Dialect { // stands for the ONNX dialect
public:
  explicit HostDialect(MLIRContext *c) : Dialect(getDialectNamespace(), c, TypeID::get<HostDialect>()) { addAttributes<DisposableElementsAttr>(); addInterface<DisposablePool>(c); }
  static StringRef getDialectNamespace() { return "host"; }
  MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(HostDialect)
};
static MLIRContext *C; static DisposablePool *P; static SimPool *TP; static bool g_closed;

// ------------------------------------------------------------ types and values
enum { BOOLT, I8, I16, I32, I64, U8, U16, U32, U64, F16, BF16, F32, F64, F8A, F8B, F8C, F8D, NT };
static Type ty(int t) {
  static const unsigned w[] = {1, 8, 16, 32, 64, 8, 16, 32, 64};
  if (t == BOOLT || t <= I64) return IntegerType::get(C, w[t]);
  if (t <= U64) return IntegerType::get(C, w[t], IntegerType::Unsigned);
  switch (t) { case F16: return Float16Type::get(C); case BF16: return BFloat16Type::get(C); case F32: return Float32Type::get(C); case F64: return Float64Type::get(C); case F8A: return Float8E4M3FNType::get(C); case F8B: return Float8E5M2Type::get(C); case F8C: return Float8E4M3FNUZType::get(C); default: return Float8E5M2FNUZType::get(C); }
}
static int kind(int t) { return t == BOOLT ? 2 : t <= I64 ? 1 : t <= U64 ? 2 : 0; }
static bool wide(int t) { return t == I32 || t == I64 || t == U32 || t == U64 || t == F32 || t == F64; }
static BType bt(int t) { return btypeOfMlirType(ty(t)); }
static WideNum w(int k, long v) { WideNum n; if (k == 0) n.dbl = v; else if (k == 1) n.i64 = v; else n.u64 = v; return n; }
static long unw(int k, WideNum n) { return k == 0 ? (n.dbl == (double)(long)n.dbl ? (long)n.dbl : -999999) : k == 1 ? (long)n.i64 : (long)n.u64; }
struct V { ElementsAttr a; Shape s; int t = 0; std::vector<long> x; const char *how = ""; };
static long prod(const Shape &s) { long n = 1; for (auto d : s) n *= d; return n; }
static RankedTensorType rt(const Shape &s, int t) { return RankedTensorType::get(s, ty(t)); }
static long top(const V &v) { long m = 0; for (long x : v.x) m = std::max(m, labs(x)); return m; }
static bool neg(const V &v) { for (long x : v.x) if (x < 0) return true; return false; }
static long val(int t) { return t == BOOLT ? sim::choose(2) : kind(t) == 2 ? sim::choose(7) : (long)sim::choose(13) - 6; }
static std::vector<long> vals(int t, long n) {
  std::vector<long> v(n); if (n <= 12) { for (auto &x : v) x = val(t); return v; }
  uint32_t h = 1 + sim::choose(1000000); for (auto &x : v) { h = h * 1664525 + 1013904223; long r = h >> 16; x = t == BOOLT ? r % 2 : kind(t) == 2 ? r % 7 : r % 13 - 6; } return v;
}
static std::string txt(const Shape &s) { std::string r; for (auto d : s) r += (r.empty() ? "" : "x") + std::to_string(d); return r.empty() ? "scalar" : r; }
static Shape defStrides(const Shape &s) { Shape r(s.size()); long m = 1; for (size_t i = s.size(); i--;) { r[i] = s[i] == 1 ? 0 : m; m *= s[i]; } return r; }
template <class F> static void each(const Shape &s, F f) { Shape i(s.size(), 0); long n = prod(s); for (long k = 0; k < n; k++) { f(i, k); for (size_t d = s.size(); d--;) { if (++i[d] < s[d]) break; i[d] = 0; } } }
static long at(const Shape &s, const Shape &i) { long p = 0; for (size_t d = 0; d < s.size(); d++) p = p * s[d] + i[d]; return p; }
static long atB(const Shape &s, const Shape &i) { long p = 0; size_t o = i.size() - s.size(); for (size_t d = 0; d < s.size(); d++) p = p * s[d] + (s[d] == 1 ? 0 : i[d + o]); return p; } // broadcast
static bool bshape(const Shape &a, const Shape &b, Shape &r) { r.assign(std::max(a.size(), b.size()), 1); for (size_t k = 0; k < r.size(); k++) { long x = k < a.size() ? a[a.size() - 1 - k] : 1, y = k < b.size() ? b[b.size() - 1 - k] : 1; if (x != y && x != 1 && y != 1) return false; r[r.size() - 1 - k] = x == 1 ? y : x; } return true; }
static void bytesOf(int t, const std::vector<long> &x, std::string &out) { // as DisposableElementsAttr keeps them
  auto put = [&](auto z) { typedef decltype(z) Z; for (long v : x) { Z y = (Z)v; out.append((const char *)&y, sizeof y); } };
  switch (t) {
  case BOOLT: for (long v : x) out += (char)v; break;
  case I8: put(int8_t()); break; case I16: put(int16_t()); break; case I32: put(int32_t()); break; case I64: put(int64_t()); break;
  case U8: put(uint8_t()); break; case U16: put(uint16_t()); break; case U32: put(uint32_t()); break; case U64: put(uint64_t()); break; case F32: put(float()); break; case F64: put(double()); break;
  default: for (long v : x) { APFloat f((double)v); bool l; f.convert(cast<FloatType>(ty(t)).getFloatSemantics(), APFloat::rmNearestTiesToEven, &l); APInt b = f.bitcastToAPInt(); uint64_t r = b.getZExtValue(); out.append((const char *)&r, b.getBitWidth() / 8); }
  }
}
static DenseElementsAttr dense(const Shape &s, int t, const std::vector<long> &x) {
  if (kind(t) == 0) { std::vector<APFloat> v; for (long y : x) { APFloat f((double)y); bool l; f.convert(cast<FloatType>(ty(t)).getFloatSemantics(), APFloat::rmNearestTiesToEven, &l); v.push_back(f); } return DenseElementsAttr::get(rt(s, t), v); }
  std::vector<APInt> v; unsigned wd = ty(t).getIntOrFloatBitWidth(); for (long y : x) v.push_back(APInt(wd, (uint64_t)y, kind(t) == 1)); return DenseElementsAttr::get(rt(s, t), v);
}
// ------------------------------------------------------------ reading
static void denseVals(DenseElementsAttr d, int t, std::vector<long> &o) {
  if (kind(t) == 0) { for (APFloat f : d.getValues<APFloat>()) { bool l; APFloat g = f; g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); double x = g.convertToDouble(); o.push_back(x == (long)x ? (long)x : -999999); } }
  else for (APInt f : d.getValues<APInt>()) o.push_back(kind(t) == 1 ? f.getSExtValue() : (long)f.getZExtValue());
}
static void checkType(const V &v, const char *when) {
  ShapedType st = v.a.getShapedType();
  if (st.getShape() != ArrayRef(v.s) || st.getElementType() != ty(v.t)) { std::string g; for (auto d : st.getShape()) g += std::to_string(d) + " "; fail("wrong-type", "%s (%s): the type is not %s of type %d but %s", when, v.how, txt(v.s).c_str(), v.t, g.c_str()); }
}
static void check(const V &v, int how, const char *when) {
  std::vector<long> o; const char *nm = "";
  ShapedType st = v.a.getShapedType(); checkType(v, when);
  switch (how) {
  default: { nm = "as a permanent constant"; DenseElementsAttr d; { sim::Sut s; d = ElementsAttrBuilder::toDenseElementsAttr(v.a); } if (d.getType() != st) fail("wrong-type", "%s: the permanent constant has another type", when); denseVals(d, v.t, o); } break;
  case 1: nm = "element by element";
    if (kind(v.t) == 0) { std::vector<APFloat> f; { sim::Sut s; auto r = v.a.getValues<APFloat>(); f.assign(r.begin(), r.end()); } for (APFloat g : f) { bool l; g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); double x = g.convertToDouble(); o.push_back(x == (long)x ? (long)x : -999999); } }
    else { std::vector<APInt> f; { sim::Sut s; auto r = v.a.getValues<APInt>(); f.assign(r.begin(), r.end()); } for (APInt &g : f) o.push_back(kind(v.t) == 1 ? g.getSExtValue() : (long)g.getZExtValue()); }
    break;
  case 2: { nm = "as wide numbers"; std::vector<WideNum> f; { sim::Sut s; ArrayBuffer<WideNum> b = getElementsWideNums(v.a); f.assign(b.get().begin(), b.get().end()); } for (auto g : f) o.push_back(unw(kind(v.t), g)); } break;
  case 3: { nm = "into a buffer of wide numbers"; std::vector<WideNum> f(v.x.size()); { sim::Sut s; readElementsWideNums(v.a, f); } for (auto g : f) o.push_back(unw(kind(v.t), g)); } break;
  case 4: {
    nm = "as a splat"; bool sp; WideNum n = w(0, 0); { sim::Sut s; sp = v.a.isSplat(); if (sp) n = getElementsSplatWideNum(v.a); }
    if (!sp) return; o.assign(v.x.size(), unw(kind(v.t), n));
  } break;
  case 5: {
    if (v.t == I64) { nm = "as an array"; sim::Sut s; ArrayBuffer<int64_t> b = getElementsArray<int64_t>(v.a); o.assign(b.get().begin(), b.get().end()); }
    else if (v.t == F32) { nm = "as an array"; sim::Sut s; ArrayBuffer<float> b = getElementsArray<float>(v.a); o.assign(b.get().begin(), b.get().end()); }
    else if (v.t == BOOLT) { nm = "as an array"; sim::Sut s; ArrayBuffer<bool> b = getElementsArray<bool>(v.a); o.assign(b.get().begin(), b.get().end()); }
    else { nm = "by comparison"; bool eq, all; { sim::Sut s; eq = ElementsAttrBuilder::equal(v.a, dense(v.s, v.t, v.x)); all = ElementsAttrBuilder::allEqual(v.a, w(kind(v.t), v.x[0])); } bool same = true; for (long y : v.x) same &= y == v.x[0]; if (!eq) fail("wrong-values", "%s (%s): compared unequal to its values", when, v.how); if (all != same) fail("wrong-values", "%s (%s): allEqual said %d", when, v.how, all); return; }
  } break;
  }
  if (o.size() != v.x.size()) fail("wrong-values", "%s (%s): %zu elements instead of %zu, read %s", when, v.how, o.size(), v.x.size(), nm);
  for (size_t i = 0; i < o.size(); i++) if (o[i] != v.x[i]) fail("wrong-values", "%s (%s, %s, type %d): element %zu is %ld instead of %ld, read %s", when, v.how, txt(v.s).c_str(), v.t, i, o[i], v.x[i], nm);
}
// ------------------------------------------------------------ functions on elements
static long fn(int f, int k, long x) { // keeps values small
  switch (f) { case 0: return k == 2 ? (x < 3 ? x + 1 : 0) : -x; case 1: return x < 0 ? -x : x; case 2: return x >= 6 ? (k == 2 ? 0 : -6) : x + 1; default: return x > 2 ? 2 : x; }
}
template <int F> static WideNum fnW0(WideNum n) { return w(0, fn(F, 0, (long)n.dbl)); }
template <int F> static WideNum fnW1(WideNum n) { return w(1, fn(F, 1, n.i64)); }
template <int F> static WideNum fnW2(WideNum n) { return w(2, fn(F, 2, (long)n.u64)); }
typedef WideNum (*Un)(WideNum); typedef WideNum (*Bin)(WideNum, WideNum);
static const Un UN[3][4] = {{fnW0<0>, fnW0<1>, fnW0<2>, fnW0<3>}, {fnW1<0>, fnW1<1>, fnW1<2>, fnW1<3>}, {fnW2<0>, fnW2<1>, fnW2<2>, fnW2<3>}};
static long bin(int f, long a, long b) { switch (f) { case 0: return std::min(a, b); case 1: return std::max(a, b); case 2: return a < b ? a : b > 2 ? 2 : b; case 3: return a < b; default: return a + b; } } // 2 is not symmetric; 3 is a comparison
template <int K, int F> static WideNum bW(WideNum a, WideNum b) { return w(F == 3 ? 2 : K, bin(F, unw(K, a), unw(K, b))); }
static const Bin BIN[3][5] = {{bW<0, 0>, bW<0, 1>, bW<0, 2>, bW<0, 3>, bW<0, 4>}, {bW<1, 0>, bW<1, 1>, bW<1, 2>, bW<1, 3>, bW<1, 4>}, {bW<2, 0>, bW<2, 1>, bW<2, 2>, bW<2, 3>, bW<2, 4>}};
// ------------------------------------------------------------ creating
static Shape someShape(bool big) {
  Shape s; if (!big) { int r = sim::choose(5); for (int i = 0; i < r; i++) s.push_back(1 + sim::choose(r > 2 ? 3 : 5)); return s; }
  switch (sim::choose(4)) { case 0: s = {1000 + (long)sim::choose(700)}; break; case 1: s = {(long)(30 + sim::choose(10)), (long)(40 + sim::choose(20))}; break; case 2: s = {4, 17 + (long)sim::choose(9), 20}; break; default: s = {(long)sim::choose(3) + 1, 1001}; } return s;
}
struct Live { std::weak_ptr<llvm::MemoryBuffer> buf; std::weak_ptr<int> token; const char *how; };
static V create(int t, const Shape &s, int how, std::vector<std::shared_ptr<llvm::MemoryBuffer>> *shared = nullptr, std::vector<Live> *lives = nullptr) {
  V v; v.s = s; v.t = t; long n = prod(s); ElementsAttrBuilder B(*P);
  if (how == 3 || how == 5) { long y = val(t); v.x.assign(n, y); } else v.x = vals(t, n);
  auto type = rt(s, t); std::vector<long> &x = v.x;
  switch (how) {
  case 0: { v.how = "from wide numbers"; int k = kind(t); sim::Sut su; v.a = B.fromWideNums(type, [&](MutableArrayRef<WideNum> d) { sim::Env e; for (long i = 0; i < n; i++) d[i] = w(k, x[i]); }); } break;
  case 1: { v.how = "from a memory buffer"; std::string b; bytesOf(t, x, b); auto mb = llvm::MemoryBuffer::getMemBufferCopy(b); sim::Sut su; v.a = B.fromMemoryBuffer(type, std::move(mb)); } break;
  case 2: case 3: v.how = how == 3 ? "permanent splat" : "permanent"; v.a = how == 3 ? DenseElementsAttr(dense({}, t, {x[0]}).resizeSplat(type)) : dense(s, t, x); break;
  case 4: { v.how = "made disposable"; auto d = dense(s, t, x); DisposableElementsAttr r = nullptr; { sim::Sut su; r = B.toDisposableElementsAttr(d); } if (!r && !g_closed) fail("not-disposable", "a constant could not be made disposable although the pool is active"); if (r && g_closed) fail("closed", "a disposable constant was created after closing"); v.a = r ? ElementsAttr(r) : ElementsAttr(d); } break;
  case 5: case 6: case 7: {
    v.how = how == 5 ? "splat in the pool" : how == 6 ? "in the pool" : "in the pool, transformed"; std::shared_ptr<llvm::MemoryBuffer> mb; Shape st = how == 5 ? Shape(s.size(), 0) : defStrides(s); bool reused = false;
    std::string b; if (how == 5) bytesOf(t, {x[0]}, b); else bytesOf(t, x, b);
    if (shared && how == 6 && !shared->empty() && sim::chance(1, 2)) for (auto &q : *shared) if (q && q->getBuffer() == b) { mb = q; reused = true; }
    if (!mb) mb = std::shared_ptr<llvm::MemoryBuffer>(llvm::MemoryBuffer::getMemBufferCopy(b));
    (void)reused; std::shared_ptr<int> tok; std::function<void(MutableArrayRef<WideNum>)> tr;
    if (how == 7) { tok = std::make_shared<int>(1 + sim::choose(3)); int k = kind(t); int f = t == BOOLT ? 1 : *tok; tr = [tok, k, f](MutableArrayRef<WideNum> d) { for (auto &q : d) q = UN[k][f](q); }; for (long &y : x) y = fn(f, k, y); }
    if (shared && how == 6 && sim::chance(1, 3)) shared->push_back(mb);
    if (lives) lives->push_back({mb, tok, v.how});
    { auto type2 = type; sim::Sut su; v.a = P->createElementsAttr(type2, bt(t), st, mb, std::move(tr)); }
    tr = nullptr;
  } break;
  }
  if (!v.a) fail("no-constant", "creating a constant (%s) gave none", v.how);
  bool disp = isa<DisposableElementsAttr>(v.a);
  if (disp && g_closed) fail("closed", "a disposable constant was created after closing");
  if (!disp && !g_closed && how != 2 && how != 3) fail("not-disposable", "a constant (%s) created in an active pool is permanent", v.how);
  return v;
}
static V derive(const V &b, ElementsAttr a, const char *how) { V v; v.a = a; v.t = b.t; v.s = b.s; v.how = how; return v; }
// one operation of the builder; false: not applicable
static bool oper(std::vector<V> &K, bool big, std::vector<V> &out) {
  ElementsAttrBuilder B(*P); auto any = [&]() -> V & { return K[sim::choose(K.size())]; };
  V a = any(); int k = kind(a.t); bool small = top(a) <= 6; V r;
  auto same = [&](V &o) { for (int i = 0; i < 6; i++) { V &c = any(); if (c.t == a.t) { o = c; return true; } } Shape s; switch (sim::choose(3)) { case 0: s = a.s; break; case 1: for (auto d : a.s) s.push_back(sim::chance(1, 2) ? d : 1); break; default: s = a.s.empty() ? Shape() : Shape(a.s.begin() + sim::choose(a.s.size()), a.s.end()); } o = create(a.t, s, sim::chance(1, 6) ? 3 : sim::choose(8)); return true; };
  int op = sim::choose(22);
  switch (op) {
  case 0: case 1: { if (a.t == BOOLT || !small) return false; int f = sim::choose(4); { sim::Sut s; r = derive(a, B.transform(a.a, ty(a.t), UN[k][f]), "transform"); } for (long x : a.x) r.x.push_back(fn(f, k, x)); } break;
  case 2: case 3: {
    V b; if (!same(b)) return false; Shape c; if (!bshape(a.s, b.s, c)) return false; if (prod(c) > 4000) return false; int f = sim::choose(4); if (!small || top(b) > 6) if (f == 2) return false; if (a.t == BOOLT && f == 2) return false;
    int t = f == 3 ? (int)BOOLT : a.t; auto type = rt(c, t); { sim::Sut s; r = derive(a, B.combine(a.a, b.a, type, BIN[k][f]), "combine"); } r.t = t; r.s = c; r.x.resize(prod(c)); each(c, [&](Shape &i, long n) { r.x[n] = bin(f, a.x[atB(a.s, i)], b.x[atB(b.s, i)]); });
  } break;
  case 4: {
    V b; if (!same(b)) return false; Shape cs; switch (sim::choose(3)) { case 0: break; case 1: cs = a.s; break; default: for (auto d : a.s) cs.push_back(sim::chance(1, 2) ? d : 1); }
    V c; bool got = false; if (sim::chance(1, 2)) for (auto &x : K) if (x.t == BOOLT) { c = x; got = true; } if (!got) c = create(BOOLT, cs, sim::choose(8));
    Shape ab, o; if (!bshape(a.s, b.s, ab) || !bshape(ab, c.s, o) || prod(o) > 4000) return false; auto type = rt(o, a.t);
    { sim::Sut s; r = derive(a, B.where(c.a, a.a, b.a, type), "where"); } r.s = o; r.x.resize(prod(o)); each(o, [&](Shape &i, long n) { r.x[n] = c.x[atB(c.s, i)] ? a.x[atB(a.s, i)] : b.x[atB(b.s, i)]; });
  } break;
  case 5: case 6: {
    int t = sim::choose(NT); if (t != BOOLT && kind(t) == 2 && neg(a)) return false; if (!small && !wide(t)) return false;
    bool plain = sim::chance(1, 2), rnd = sim::chance(1, 2); { auto T = ty(t); sim::Sut s; ElementsAttr e; if (plain) e = B.castElementType(a.a, T); else if (kind(t)) e = B.castToIntElementType(a.a, cast<IntegerType>(T), rnd); else e = B.castToFPElementType(a.a, cast<FloatType>(T), rnd); r = derive(a, e, "cast"); }
    r.t = t; for (long x : a.x) r.x.push_back(t == BOOLT ? x != 0 : x);
  } break;
  case 7: { if (a.t == BOOLT) return false; long lo = k == 2 ? sim::choose(3) : -(long)sim::choose(5), hi = lo + sim::choose(5); { sim::Sut s; r = derive(a, B.clip(a.a, w(k, lo), w(k, hi)), "clip"); } for (long x : a.x) r.x.push_back(x < lo ? lo : x > hi ? hi : x); } break;
  case 8: case 9: {
    std::vector<uint64_t> p(a.s.size()); for (size_t i = 0; i < p.size(); i++) p[i] = i; for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[sim::choose(i)]);
    { sim::Sut s; r = derive(a, B.transpose(a.a, p), "transpose"); } for (size_t i = 0; i < p.size(); i++) r.s[i] = a.s[p[i]]; r.x.resize(a.x.size()); each(r.s, [&](Shape &i, long n) { Shape j(i.size()); for (size_t d = 0; d < p.size(); d++) j[p[d]] = i[d]; r.x[n] = a.x[at(a.s, j)]; });
  } break;
  case 10: case 11: {
    Shape s; long n = prod(a.s); while (n > 1 && s.size() < 4) { std::vector<long> d; for (long q = 1; q <= n; q++) if (n % q == 0) d.push_back(q); long q = s.size() == 3 ? n : d[sim::choose(d.size())]; s.push_back(q); n /= q; } if (n > 1) s.push_back(n); if (sim::chance(1, 4)) s.insert(s.begin() + sim::choose(s.size() + 1), 1);
    { sim::Sut su; r = derive(a, B.reshape(a.a, s), "reshape"); } r.s = s; r.x = a.x;
  } break;
  case 12: { Shape s = a.s; for (auto &d : s) if (d == 1 && sim::chance(2, 3)) d = 1 + sim::choose(4); if (sim::chance(1, 2) && s.size() < 5) s.insert(s.begin(), 1 + sim::choose(3)); if (prod(s) > 4000) return false; { sim::Sut su; r = derive(a, B.expand(a.a, s), "expand"); } r.s = s; r.x.resize(prod(s)); each(s, [&](Shape &i, long n) { r.x[n] = a.x[atB(a.s, i)]; }); } break;
  case 13: {
    if (a.s.empty()) return false; unsigned ax = sim::choose(a.s.size()); Shape z; long left = a.s[ax]; while (left && z.size() < 3) { long q = z.size() == 2 ? left : 1 + sim::choose(left); z.push_back(q); left -= q; }
    std::vector<ElementsAttr> e; { sim::Sut su; e = B.split(a.a, ax, z); } if (e.size() != z.size()) fail("wrong-type", "split into %zu gave %zu", z.size(), e.size()); long off = 0;
    for (size_t q = 0; q < z.size(); q++) { V p = derive(a, e[q], "split"); p.s[ax] = z[q]; p.x.resize(prod(p.s)); each(p.s, [&](Shape &i, long n) { Shape j = i; j[ax] += off; p.x[n] = a.x[at(a.s, j)]; }); off += z[q]; out.push_back(p); }
    return true;
  }
  case 14: {
    if (a.s.empty()) return false; unsigned ax = sim::choose(a.s.size()); std::vector<V> in = {a}; int m = sim::choose(3); for (int q = 0; q < m; q++) { Shape s = a.s; if (sim::chance(1, 2)) s[ax] = 1 + sim::choose(4); V c; bool got = false; for (auto &x : K) if (x.t == a.t && x.s == s) { c = x; got = true; } in.push_back(got ? c : create(a.t, s, sim::choose(8))); }
    std::vector<ElementsAttr> e; for (auto &c : in) e.push_back(c.a); { sim::Sut su; r = derive(a, B.concat(e, ax), "concat"); } r.s[ax] = 0; for (auto &c : in) r.s[ax] += c.s[ax]; r.x.resize(prod(r.s));
    each(r.s, [&](Shape &i, long n) { Shape j = i; size_t c = 0; while (j[ax] >= in[c].s[ax]) j[ax] -= in[c++].s[ax]; r.x[n] = in[c].x[at(in[c].s, j)]; });
  } break;
  case 15: {
    Shape s, b, st; for (auto d : a.s) { long step = 1 + sim::choose(3), cnt = 1 + sim::choose((d + step - 1) / step); long span = (cnt - 1) * step; long start = sim::choose(d - span); if (sim::chance(1, 3)) { start += span; step = -step; } s.push_back(cnt); b.push_back(start); st.push_back(step); }
    { sim::Sut su; r = derive(a, B.slice(a.a, s, b, st), "slice"); } r.s = s; r.x.resize(prod(s)); each(s, [&](Shape &i, long n) { Shape j(i.size()); for (size_t d = 0; d < i.size(); d++) j[d] = b[d] + i[d] * st[d]; r.x[n] = a.x[at(a.s, j)]; });
  } break;
  case 16: {
    Shape p; for (size_t i = 0; i < 2 * a.s.size(); i++) p.push_back(sim::chance(1, 2) ? 0 : sim::choose(3)); Shape s = a.s; for (size_t i = 0; i < s.size(); i++) s[i] += p[i] + p[i + s.size()]; if (prod(s) > 5000) return false; long c = val(a.t);
    { sim::Sut su; r = derive(a, B.pad(a.a, p, w(k, c)), "pad"); } r.s = s; r.x.resize(prod(s)); each(s, [&](Shape &i, long n) { Shape j = i; bool in = true; for (size_t d = 0; d < i.size(); d++) { j[d] -= p[d]; if (j[d] < 0 || j[d] >= a.s[d]) in = false; } r.x[n] = in ? a.x[at(a.s, j)] : c; });
  } break;
  case 17: {
    if (a.s.empty()) return false; unsigned ax = sim::choose(a.s.size()); Shape is; int rk = sim::choose(3); for (int q = 0; q < rk; q++) is.push_back(1 + sim::choose(3)); std::vector<long> ix(prod(is)); for (auto &x : ix) { x = sim::choose(a.s[ax]); if (sim::chance(1, 3)) x -= a.s[ax]; }
    int it = sim::chance(1, 2) ? I64 : I32; ElementsAttr ia = dense(is, it, ix); if (sim::chance(1, 2)) { ElementsAttrBuilder b2(*P); sim::Sut su; if (auto d = b2.toDisposableElementsAttr(ia)) ia = d; }
    Shape s(a.s.begin(), a.s.begin() + ax); s.insert(s.end(), is.begin(), is.end()); s.insert(s.end(), a.s.begin() + ax + 1, a.s.end()); if (prod(s) > 5000) return false;
    { sim::Sut su; r = derive(a, B.gather(a.a, ia, ax), "gather"); } r.s = s; r.x.resize(prod(s)); each(s, [&](Shape &i, long n) { Shape q(i.begin() + ax, i.begin() + ax + is.size()); long x = ix[at(is, q)]; if (x < 0) x += a.s[ax]; Shape j(i.begin(), i.begin() + ax); j.push_back(x); j.insert(j.end(), i.begin() + ax + is.size(), i.end()); r.x[n] = a.x[at(a.s, j)]; });
  } break;
  case 18: {
    if (a.s.empty()) return false; unsigned nd = 1 + sim::choose(a.s.size()); Shape outer(1 + sim::choose(2)); for (auto &d : outer) d = 1 + sim::choose(2); std::set<std::vector<long>> seen; std::vector<long> ix; long m = prod(outer);
    for (long q = 0; q < m; q++) { std::vector<long> one; for (unsigned d = 0; d < nd; d++) one.push_back(sim::choose(a.s[d])); if (!seen.insert(one).second) return false; ix.insert(ix.end(), one.begin(), one.end()); }
    Shape is = outer; is.push_back(nd); Shape us = outer; us.insert(us.end(), a.s.begin() + nd, a.s.end()); V u = create(a.t, us, sim::choose(8)); ElementsAttr ia = dense(is, I64, ix); if (sim::chance(1, 2)) { sim::Sut su; if (auto d = B.toDisposableElementsAttr(ia)) ia = d; }
    { sim::Sut su; r = derive(a, B.scatterND(a.a, ia, u.a), "scatterND"); } r.x = a.x; each(us, [&](Shape &i, long n) { Shape o(i.begin(), i.begin() + outer.size()); long q = at(outer, o); Shape j; for (unsigned d = 0; d < nd; d++) j.push_back(ix[q * nd + d]); j.insert(j.end(), i.begin() + outer.size(), i.end()); r.x[at(a.s, j)] = u.x[n]; });
  } break;
  case 19: {
    if (a.s.empty()) return false; std::vector<unsigned> ax; for (unsigned d = 0; d < a.s.size(); d++) if (sim::chance(1, 2)) ax.push_back(d); for (size_t i = ax.size(); i > 1; i--) std::swap(ax[i - 1], ax[sim::choose(i)]);
    bool keep = sim::chance(1, 2); int f = sim::chance(1, 2) && wide(a.t) && top(a) < 1000 ? 4 : sim::choose(2); { sim::Sut su; r = derive(a, B.reduce(a.a, ax, keep, BIN[k][f]), "reduce"); }
    if (ax.empty()) { r.x = a.x; break; } std::set<unsigned> A(ax.begin(), ax.end()); Shape s; for (unsigned d = 0; d < a.s.size(); d++) if (!A.count(d)) s.push_back(a.s[d]); else if (keep) s.push_back(1); r.s = s; r.x.resize(prod(s)); std::vector<char> have(prod(s));
    each(a.s, [&](Shape &i, long n) { Shape j; for (unsigned d = 0; d < i.size(); d++) if (!A.count(d)) j.push_back(i[d]); else if (keep) j.push_back(0); long q = at(s, j); r.x[q] = have[q] ? bin(f, r.x[q], a.x[n]) : a.x[n]; have[q] = 1; });
  } break;
  case 20: {
    if (a.s.empty() || !wide(a.t) || top(a) > 1000) return false; long Kd = a.s.back(); Shape bs; if (sim::chance(1, 5)) bs = {Kd}; else { if (sim::chance(1, 3)) for (size_t d = 0; d + 2 < a.s.size(); d++) bs.push_back(sim::chance(1, 2) ? a.s[d] : 1); bs.push_back(Kd); bs.push_back(1 + sim::choose(4)); }
    if (prod(bs) * (a.s.size() > 1 ? prod(a.s) / Kd : 1) > 60000) return false; V b; bool got = false; for (auto &x : K) if (x.t == a.t && x.s == bs && top(x) <= 1000) { b = x; got = true; } if (!got) b = create(a.t, bs, sim::choose(8));
    Shape la(a.s.begin(), a.s.end() - std::min<size_t>(2, a.s.size())), lb(bs.begin(), bs.end() - std::min<size_t>(2, bs.size())), c; if (!bshape(la, lb, c)) return false; long M = a.s.size() > 1 ? a.s[a.s.size() - 2] : 1, N = bs.size() > 1 ? bs.back() : 1; Shape full = c; full.push_back(M); full.push_back(N); if (prod(full) > 4000) return false;
    { sim::Sut su; r = derive(a, B.matMul(a.a, b.a), "matMul"); } r.s = c; if (a.s.size() > 1) r.s.push_back(M); if (bs.size() > 1) r.s.push_back(N); r.x.resize(prod(full));
    each(full, [&](Shape &i, long n) { Shape bi(i.begin(), i.end() - 2); long pa = la.empty() ? 0 : atB(la, bi), pb = lb.empty() ? 0 : atB(lb, bi), m = i[i.size() - 2], nn = i.back(), acc = 0; for (long q = 0; q < Kd; q++) acc += a.x[(pa * M + m) * Kd + q] * b.x[(pb * Kd + q) * N + nn]; r.x[n] = acc; });
  } break;
  default: {
    if (sim::chance(1, 2)) {
      int t = wide(a.t) ? a.t : (int)I64; int kk = kind(t); Shape s = someShape(big); long lo = kk == 2 ? sim::choose(5) : (long)sim::choose(9) - 4, d = kk == 2 ? sim::choose(3) : (long)sim::choose(5) - 2; auto type = rt(s, t); { sim::Sut su; r.a = B.range(type, w(kk, lo), w(kk, d)); } r.how = "range"; r.s = s; r.t = t; for (long i = 0; i < prod(s); i++) r.x.push_back(lo + i * d);
    } else {
      { sim::Sut su; r.a = B.nonZero(a.a); } r.how = "nonZero"; r.t = I64; std::vector<Shape> z; each(a.s, [&](Shape &i, long n) { if (a.x[n]) z.push_back(i); }); r.s = {(long)a.s.size(), (long)z.size()}; for (size_t d = 0; d < a.s.size(); d++) for (auto &i : z) r.x.push_back(i[d]);
    }
  } break;
  }
  out.push_back(r); return true;
}
static void setup(int n) { // n worker threads; 0: no multithreading
  C = new MLIRContext(MLIRContext::Threading::DISABLED); C->allowUnregisteredDialects(); C->loadDialect<HostDialect>(); g_closed = false;
  TP = nullptr; if (n) { TP = new SimPool(n); C->setThreadPool(*TP); if (C->getNumThreads() != (unsigned)n) fail("harness", "thread pool not taken"); }
  P = DisposablePool::get<HostDialect>(C);
}
static void teardown() { if (TP) TP->end(); sim::schedFinish(); sim::Sut s; delete C; C = nullptr; delete TP; TP = nullptr; }
static int workers() { static const int n[] = {2, 3, 4, 1, 8, 5, 0}; return n[sim::choose(7)]; }

// ------------------------------------------------------------ P25
static void run25() {
  sim::Env env; sim::schedStart(); sim::schedStepCap(60000000); int n = workers(); setup(n);
  int T = sim::chance(1, 2) ? 1 : 2 + sim::choose(2); bool big = sim::chance(1, 3); std::vector<std::vector<V>> K(T);
  auto session = [&](int me) {
    auto &k = K[me]; int t0 = sim::choose(NT); for (int i = 0; i < 2; i++) k.push_back(create(sim::chance(1, 2) ? t0 : sim::choose(NT), someShape(big && i == 0), sim::choose(8)));
    int steps = 3 + sim::choose(big ? 5 : 10);
    for (int i = 0; i < steps; i++) {
      std::vector<V> o; if (!oper(k, big, o)) continue;
      for (auto &r : o) { if (r.x.empty()) { checkType(r, "an empty result"); continue; } sim::op("thread %d: %s -> %s type %d", me, r.how, txt(r.s).c_str(), r.t); check(r, sim::choose(6), "a result"); if (r.x.size() >= 1000) sim::probe("large constant"); sim::probe(r.how); k.push_back(r); }
      if (k.size() > 14) k.erase(k.begin());
    }
  };
  if (T == 1) session(0); else { for (int i = 0; i < T; i++) { char nm[16]; snprintf(nm, sizeof nm, "client%d", i); sim::taskSpawn(nm, [&, i] { sim::Env e; session(i); }); } for (int i = 0; i < T; i++) sim::yieldPoint("wait"); sim::taskJoinAllBut(TP ? "worker" : ""); }
  // everything read once more, from several threads
  int R = 1 + sim::choose(3); auto reader = [&](int r) { for (int q = 0; q < 6; q++) { auto &k = K[(r + q) % T]; if (k.empty()) continue; check(k[sim::choose(k.size())], sim::choose(6), "a later reading"); } };
  for (int i = 0; i < R; i++) { char nm[16]; snprintf(nm, sizeof nm, "reader%d", i); sim::taskSpawn(nm, [&, i] { sim::Env e; reader(i); }); }
  sim::taskJoinAllBut(TP ? "worker" : "");
  sim::state(std::to_string(n) + "/" + std::to_string(T) + "/" + std::to_string(sim::schedSwitches()));
  for (auto &k : K) for (auto &v : k) if (sim::chance(1, 3)) check(v, sim::choose(6), "a last reading");
  teardown();
}
// ------------------------------------------------------------ P14
static void run14() {
  sim::Env env; sim::schedStart(); sim::schedStepCap(60000000); int n = workers(); setup(n);
  static const std::pair<StringRef, StringRef> DICT[] = {{"host.const", "value"}, {"host.table", "data"}};
  Location L = UnknownLoc::get(C); ModuleOp M = ModuleOp::create(L); OpBuilder OB(C); OB.setInsertionPointToEnd(M.getBody());
  int T = 1 + sim::choose(4), per = 2 + sim::choose(12); bool big = sim::chance(1, 3);
  struct Slot { Operation *op; StringRef attr; V v; bool full = false; }; std::vector<std::vector<Slot>> S(T);
  for (int t = 0; t < T; t++) for (int i = 0; i < per; i++) {
    if (sim::chance(1, 6)) { auto in = OB.create<ModuleOp>(L); OB.setInsertionPointToEnd(in.getBody()); } else if (sim::chance(1, 6)) OB.setInsertionPointToEnd(M.getBody());
    bool tab = sim::chance(1, 3); OperationState st(L, tab ? "host.table" : "host.const"); st.addAttribute("other", OB.getUnitAttr()); S[t].push_back({OB.create(st), tab ? "data" : "value", V(), false});
  }
  std::vector<std::vector<Live>> lives(T); std::vector<std::vector<std::shared_ptr<llvm::MemoryBuffer>>> shared(T); std::vector<std::vector<V>> loose(T); std::set<const void *> ids; std::vector<V> gone;
  int phases = 1 + sim::choose(4); bool closed = false;
  for (int ph = 0; ph < phases; ph++) {
    bool last = ph == phases - 1;
    auto client = [&](int me) {
      auto &sl = S[me]; int steps = 2 + sim::choose(per);
      for (int i = 0; i < steps; i++) {
        auto &z = sl[sim::choose(sl.size())];
        switch (sim::choose(8)) {
        default: {
          V v; bool mk = loose[me].empty() || sim::chance(2, 3);
          if (mk) { static const int H[] = {0, 1, 4, 5, 6, 6, 7, 2}; int h = H[sim::choose(8)]; v = create(sim::choose(NT), someShape(big && sim::chance(1, 2)), h, &shared[me], &lives[me]); loose[me].push_back(v); sim::op("thread %d creates %s %s %s", me, v.how, txt(v.s).c_str(), isa<DisposableElementsAttr>(v.a) ? "disposable" : "permanent"); }
          else v = loose[me][sim::choose(loose[me].size())];
          { sim::Sut su; z.op->setAttr(z.attr, v.a); } z.v = v; z.full = true;
        } break;
        case 4: { std::vector<V> o; if (loose[me].empty() || !oper(loose[me], big, o) || o[0].x.empty()) break; loose[me].push_back(o[0]); sim::op("thread %d derives %s", me, o[0].how); { sim::Sut su; z.op->setAttr(z.attr, o[0].a); } z.v = o[0]; z.full = true; } break;
        case 5: if (z.full) { sim::Sut su; z.op->removeAttr(z.attr); z.full = false; } break;
        case 6: if (!loose[me].empty()) check(loose[me][sim::choose(loose[me].size())], sim::choose(6), "a constant"); break;
        case 7: { bool a; { sim::Sut su; a = P->isActive(); } if (a == closed) fail("active", "the pool says it is %sactive", a ? "" : "not "); } break;
        }
      }
    };
    for (int i = 0; i < T; i++) { char nm[16]; snprintf(nm, sizeof nm, "client%d", i); sim::taskSpawn(nm, [&, i] { sim::Env e; client(i); }); }
    sim::taskJoinAllBut("worker");
    // identities
    for (int t = 0; t < T; t++) { for (auto &v : loose[t]) if (isa<DisposableElementsAttr>(v.a)) for (int u = 0; u < T; u++) for (auto &x : loose[u]) if (&x != &v && x.a == v.a && (x.x != v.x || x.s != v.s || u != t)) fail("same-identity", "two constants have the same identity"); }
    // the world stops
    bool scrub = last || sim::chance(1, 3); std::set<const void *> kept; for (auto &sl : S) for (auto &z : sl) if (z.full) kept.insert(z.v.a.getAsOpaquePointer());
    std::vector<std::vector<std::shared_ptr<llvm::MemoryBuffer>>> none(T); for (auto &q : shared) q.clear();
    std::vector<std::weak_ptr<llvm::MemoryBuffer>> must, mustNot;
    sim::op(scrub ? "scrub" : "collect");
    if (scrub) { sim::Sut su; P->scrub(M, DICT); } else { sim::Sut su; P->garbageCollectUnreachable(M, DICT); }
    for (auto &sl : S) for (auto &z : sl) {
      Attribute a = z.op->getAttr(z.attr);
      if (!z.full) { if (a) fail("attribute", "an attribute appeared"); continue; }
      if (!a) fail("attribute", "an attribute was lost");
      if (scrub) { if (!isa<DenseElementsAttr>(a)) fail("not-scrubbed", "an attribute is still disposable after scrubbing"); z.v.a = cast<ElementsAttr>(a); check(z.v, sim::choose(6), "after scrubbing"); }
      else { if (a != z.v.a) fail("attribute", "collection changed an attribute"); check(z.v, sim::choose(6), "after collection"); }
      if (!z.op->hasAttr("other")) fail("attribute", "another attribute was lost");
    }
    // what must be released: everything, or what no kept constant stands for
    for (int t = 0; t < T; t++) {
      std::vector<V> keep; for (auto &v : loose[t]) if (!isa<DisposableElementsAttr>(v.a) || (!scrub && kept.count(v.a.getAsOpaquePointer()))) keep.push_back(v);
      if (scrub || keep.empty()) {
        bool anyDisp = false; for (auto &v : keep) anyDisp |= isa<DisposableElementsAttr>(v.a);
        if (!anyDisp) for (auto &l : lives[t]) { if (!l.buf.expired()) fail("not-released", "the data of a constant (%s) nobody can reach was not released by %s", l.how, scrub ? "scrubbing" : "collection"); if (!l.token.expired()) fail("not-released", "the transformation of a constant (%s) nobody can reach was not released by %s", l.how, scrub ? "scrubbing" : "collection"); }
        if (!anyDisp) { sim::probe(scrub ? "all released by scrubbing" : "all released by collection"); lives[t].clear(); }
      }
      // one by one: constants made directly in the pool share nothing unless derived
      loose[t] = keep;
    }
    if (!scrub) for (int t = 0; t < T; t++) for (auto &v : loose[t]) check(v, sim::choose(6), "kept by collection");
    if (scrub && !closed && (last || sim::chance(1, 2))) { sim::op("close"); { sim::Sut su; P->close(); } closed = g_closed = true; sim::probe("closed"); bool a; { sim::Sut su; a = P->isActive(); } if (a) fail("active", "the pool is active after closing"); }
  }
  for (auto &sl : S) for (auto &z : sl) if (z.full) check(z.v, 0, "at the end");
  sim::state(std::to_string(n) + "/" + std::to_string(T) + "/" + std::to_string(phases) + "/" + std::to_string(sim::schedSwitches()));
  if (TP) { TP->end(); } sim::schedFinish(); { sim::Sut s; M->erase(); delete C; } delete TP;
}
static void run() { if (sim::prop() == "P14") run14(); else run25(); }
static void warm() { MLIRContext c(MLIRContext::Threading::DISABLED); c.loadDialect<HostDialect>(); C = &c; for (int t = 0; t < NT; t++) { std::vector<long> x = {1, 0}; dense({2}, t, x); } C = nullptr; }
int main(int argc, char **argv) { sim::Options o; o.cpuLimit = 60; return sim::simMain(argc, argv, o, warm, run); }
