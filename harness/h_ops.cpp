// P29: the runtime operations compiled models call - sorting, top-k, unique,
// resizing and index lookup - against executable models of what ONNX defines.
// Real: OMSort.c, OMTopK.c, OMUnique.c, OMResize.c, OMIndexLookup.c,
// PerfectHash.cpp (the compiler's half of the lookup), OMTensor, allocator
// (AddressSanitizer), threads with small stacks. Simulated: what the memory
// handed out contains, the caller's stack, the C library's generator.
#include "OMTensorHelper.hpp"
#include "onnx-mlir/Runtime/OMTensor.h"
#include "simkit.h"
#include "src/Conversion/ONNXToKrnl/PerfectHash.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <numeric>
#include <pthread.h>
#include <set>
using sim::fail;
extern "C" {
void omTensorSort(OMTensor *, const OMTensor *, uint64_t, uint64_t);
void omTensorTopK(OMTensor *, const OMTensor *, uint64_t, uint64_t, uint64_t, uint64_t);
void omTensorUnique(OMTensor *, OMTensor *, OMTensor *, OMTensor *, OMTensor *, const OMTensor *, int64_t, uint64_t);
void omTensorUniqueCount(OMTensor *, const OMTensor *, int64_t, uint64_t);
void quick_sort_custom(void *, size_t, size_t, int (*)(const void *, const void *, void *), void *);
typedef int cmpFn(const void *, const void *, void *); cmpFn *getCompareFunction(uint64_t, OM_DATA_TYPE);
uint64_t find_index_str(const char *, const int32_t[], const int32_t[], int32_t); uint64_t find_index_i64(int64_t, const int32_t[], const int32_t[], int32_t);
void Resize_Scales(OMTensor *, OMTensor *, OMTensor *, char *, char *); void Resize_Size(OMTensor *, OMTensor *, OMTensor *, char *, char *);
int __wrap_rand() { static uint64_t n; uint64_t z = (n += 0x9e3779b97f4a7c15ull); z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; return (int)((z >> 32) & RAND_MAX); }
}
namespace {
// The caller's thread: its stack may be as small as what other runtimes give theirs.
void callSut(const std::function<void()> &f) {
  bool small = sim::faultsArmed() && sim::chance(1, 3);
  if (!small) { sim::Sut s; f(); return; }
  sim::countFault("small-stack"); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 256 * 1024); pthread_t t;
  struct A { const std::function<void()> *f; } arg{&f};
  if (pthread_create(&t, &a, [](void *p) -> void * { sim::Sut s; (*((A *)p)->f)(); return nullptr; }, &arg)) fail("harness", "no thread");
  pthread_join(t, nullptr); pthread_attr_destroy(&a);
}
int esz(OM_DATA_TYPE t) { return (int)getDataTypeSize(t); }
const OM_DATA_TYPE types[] = {ONNX_TYPE_FLOAT, ONNX_TYPE_INT64, ONNX_TYPE_INT32, ONNX_TYPE_UINT8, ONNX_TYPE_DOUBLE, ONNX_TYPE_BOOL, ONNX_TYPE_INT8, ONNX_TYPE_INT16, ONNX_TYPE_UINT16, ONNX_TYPE_UINT32, ONNX_TYPE_UINT64, ONNX_TYPE_FLOAT16};
OMTensor *tensor(OM_DATA_TYPE dt, std::vector<int64_t> sh) {
  OMTensor *t; { sim::Sut s; t = omTensorCreateEmpty(sh.data(), sh.size(), dt); } if (!t) fail("harness", "no tensor");
  // what memory holds before the model writes it is not defined
  if (int64_t n = omTensorGetBufferSize(t)) { unsigned char *p = (unsigned char *)omTensorGetDataPtr(t); uint64_t z = sim::choose(1 << 16); for (int64_t i = 0; i < n; i++) { z = z * 6364136223846793005ull + 1442695040888963407ull; p[i] = z >> 56; } }
  return t;
}
void rm(OMTensor *t) { if (t) { sim::Sut s; omTensorDestroy(t); } }
bool isFloat(OM_DATA_TYPE t) { return t == ONNX_TYPE_FLOAT || t == ONNX_TYPE_DOUBLE || t == ONNX_TYPE_FLOAT16; }
template <class T> void put(OMTensor *t, int64_t i, T v) { ((T *)omTensorGetDataPtr(t))[i] = v; }
// element i as a number of the widest kind of its class
double half(uint16_t h) { int s = h >> 15, e = (h >> 10) & 31, m = h & 1023; double v = e == 0 ? std::ldexp(m, -24) : e == 31 ? (m ? NAN : INFINITY) : std::ldexp(1024 + m, e - 25); return s ? -v : v; }
long double num(OM_DATA_TYPE dt, const void *p, int64_t i) {
  switch (dt) {
  case ONNX_TYPE_FLOAT: return ((float *)p)[i]; case ONNX_TYPE_DOUBLE: return ((double *)p)[i]; case ONNX_TYPE_FLOAT16: return half(((uint16_t *)p)[i]);
  case ONNX_TYPE_INT64: return ((int64_t *)p)[i]; case ONNX_TYPE_INT32: return ((int32_t *)p)[i]; case ONNX_TYPE_INT16: return ((int16_t *)p)[i]; case ONNX_TYPE_INT8: return ((int8_t *)p)[i];
  case ONNX_TYPE_UINT64: return ((uint64_t *)p)[i]; case ONNX_TYPE_UINT32: return ((uint32_t *)p)[i]; case ONNX_TYPE_UINT16: return ((uint16_t *)p)[i]; case ONNX_TYPE_UINT8: return ((uint8_t *)p)[i]; case ONNX_TYPE_BOOL: return ((uint8_t *)p)[i];
  default: fail("harness", "type"); return 0; }
}
// seeded values: few distinct ones (ties), or extremes and neighbours of them
struct Rng { uint64_t x; uint64_t next() { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } uint64_t below(uint64_t n) { return next() % n; } };
template <class T> T intVal(Rng &r, int k) { typedef std::numeric_limits<T> L; switch (k) { case 0: return (T)(r.below(3)); case 1: return (T)((int64_t)r.below(9) - (L::is_signed ? 4 : 0)); case 2: return r.below(2) ? (T)(L::max() - (T)r.below(3)) : (T)(L::min() + (T)r.below(3)); default: return (T)r.next(); } }
bool fillVals(OMTensor *t, Rng &r, int k, bool nan) {
  OM_DATA_TYPE dt = omTensorGetDataType(t); int64_t n = omTensorGetNumElems(t); bool any = false;
  for (int64_t i = 0; i < n; i++) switch (dt) {
    case ONNX_TYPE_FLOAT: case ONNX_TYPE_DOUBLE: { double v; switch (k) { case 0: v = (double)r.below(3); break; case 1: v = ((int)r.below(9) - 4) * 0.5; break; case 2: { static const double x[] = {INFINITY, -INFINITY, 3e38, -3e38, 1e-40, -1e-40, 1.0000001, 1, 16777216, 16777217}; v = x[r.below(10)]; break; } default: v = (double)(int64_t)r.next() * 1e-12; }
      if (nan && !r.below(5)) { v = NAN; any = true; } if (dt == ONNX_TYPE_FLOAT) put<float>(t, i, (float)v); else put<double>(t, i, v); } break;
    case ONNX_TYPE_FLOAT16: { uint16_t v = k == 0 ? (uint16_t)(0x3c00 + r.below(3)) : k == 1 ? (uint16_t)(r.below(4) | (r.below(2) ? 0x8000 : 0) | 4) : k == 2 ? (uint16_t)(r.below(2) ? 0x7c00 : 0xfbff) : (uint16_t)r.next(); if (std::isnan(half(v))) { if (!nan) v = 0x1234; else any = true; } put<uint16_t>(t, i, v); } break;
    case ONNX_TYPE_INT64: put<int64_t>(t, i, intVal<int64_t>(r, k)); break; case ONNX_TYPE_INT32: put<int32_t>(t, i, intVal<int32_t>(r, k)); break; case ONNX_TYPE_INT16: put<int16_t>(t, i, intVal<int16_t>(r, k)); break; case ONNX_TYPE_INT8: put<int8_t>(t, i, intVal<int8_t>(r, k)); break;
    case ONNX_TYPE_UINT64: put<uint64_t>(t, i, intVal<uint64_t>(r, k)); break; case ONNX_TYPE_UINT32: put<uint32_t>(t, i, intVal<uint32_t>(r, k)); break; case ONNX_TYPE_UINT16: put<uint16_t>(t, i, intVal<uint16_t>(r, k)); break; case ONNX_TYPE_UINT8: put<uint8_t>(t, i, intVal<uint8_t>(r, k)); break;
    case ONNX_TYPE_BOOL: put<uint8_t>(t, i, r.below(2)); break; default: fail("harness", "type"); }
  return any;
}
std::string shapeStr(const std::vector<int64_t> &s) { std::string o = "["; for (auto v : s) o += std::to_string(v) + ","; return o + "]"; }
std::vector<int64_t> shape(int maxRank, int maxDim, bool empty) { int rk = 1 + sim::choose(maxRank); std::vector<int64_t> s; for (int i = 0; i < rk; i++) s.push_back(1 + sim::choose(rk > 3 ? std::min(maxDim, 3) : maxDim)); if (empty && sim::chance(1, 25)) s[sim::choose(rk)] = 0; return s; }
uint64_t content(OMTensor *t) { return sim::hashBytes(omTensorGetDataPtr(t), omTensorGetBufferSize(t), sim::hashBytes(omTensorGetShape(t), 8 * omTensorGetRank(t), 1)); }
struct Same { OMTensor *t; uint64_t h; Same(OMTensor *t) : t(t), h(content(t)) {} void check(const char *w) { if (content(t) != h) fail("input-changed", "%s changed its input", w); } };

// ---------------------------------------------------------------- sort, top-k
void opSort(bool topk) {
  std::vector<int64_t> sh = shape(6, 4, true); if (sim::chance(2, 3)) sh.back() = sim::choose(sim::chance(1, 20) ? 400 : 24) + (sim::chance(1, 20) ? 0 : 1);
  OM_DATA_TYPE dt = types[sim::choose(12)]; int kind = sim::choose(4); bool nan = isFloat(dt) && sim::chance(1, 12); Rng r{(uint64_t)sim::choose(1 << 20)};
  OMTensor *x = tensor(dt, sh); bool hasNan = fillVals(x, r, kind, nan); OMTensor *o = tensor(ONNX_TYPE_INT64, sh); int64_t n = omTensorGetNumElems(x), m = sh.back(); int64_t *ord = (int64_t *)omTensorGetDataPtr(o);
  for (int64_t i = 0; i < n; i++) ord[i] = i % m; // as the compiled code sets it
  int asc = sim::choose(2), sorted = sim::choose(2); int64_t k = m; if (topk && m) k = sim::chance(1, 4) ? sim::choose(std::min<int64_t>(m, 3) + 1) : 1 + sim::choose(m);
  sim::op("%s type %d shape %s %s k %lld sorted %d kind %d%s", topk ? "top-k" : "sort", dt, shapeStr(sh).c_str(), asc ? "ascending" : "descending", (long long)k, sorted, kind, hasNan ? " with NaN" : "");
  Same same(x);
  callSut([&] { if (topk) omTensorTopK(o, x, sh.size() - 1, asc, k, sorted); else omTensorSort(o, x, sh.size() - 1, asc); });
  same.check(topk ? "top-k" : "sort"); const void *d = omTensorGetDataPtr(x);
  for (int64_t row = 0; m && row < n / m; row++) {
    std::vector<int64_t> got(ord + row * m, ord + row * m + m), ref(m); std::set<int64_t> uniq(got.begin(), got.end());
    if ((int64_t)uniq.size() != m || *uniq.begin() != 0 || *uniq.rbegin() != m - 1) fail("not-permutation", "row %lld: the order is not a permutation of the positions", (long long)row);
    if (hasNan) continue;
    std::iota(ref.begin(), ref.end(), 0); std::stable_sort(ref.begin(), ref.end(), [&](int64_t a, int64_t b) { long double u = num(dt, d, row * m + a), v = num(dt, d, row * m + b); return asc ? u < v : u > v; });
    if (topk && !sorted) { std::sort(got.begin(), got.begin() + k); std::sort(ref.begin(), ref.begin() + k); }
    for (int64_t i = 0; i < (topk ? k : m); i++) if (got[i] != ref[i]) fail("wrong-order", "row %lld, place %lld: element %lld (%Lg), expected element %lld (%Lg)", (long long)row, (long long)i, (long long)got[i], num(dt, d, row * m + got[i]), (long long)ref[i], num(dt, d, row * m + ref[i]));
  }
  sim::probe(hasNan ? "not-a-number" : topk ? "top-k" : "sort"); sim::state(std::string(topk ? "k" : "s") + std::to_string(dt) + "r" + std::to_string(sh.size()) + "a" + std::to_string(asc) + "k" + std::to_string(kind)); rm(x); rm(o);
}
void opCustomSort() {
  int m = 1 + sim::choose(60); std::vector<float> d(m); std::vector<uint64_t> ix(m); Rng r{(uint64_t)sim::choose(1 << 20)}; int spread = 1 + sim::choose(m + 5); bool run = sim::chance(1, 2);
  for (int i = 0; i < m; i++) { d[i] = run ? i : (float)r.below(spread); ix[i] = i; } int asc = sim::choose(2);
  sim::op("portable sort of %d values", m); callSut([&] { quick_sort_custom(ix.data(), m, 8, getCompareFunction(asc, ONNX_TYPE_FLOAT), d.data()); });
  std::vector<uint64_t> ref(m); std::iota(ref.begin(), ref.end(), 0); std::stable_sort(ref.begin(), ref.end(), [&](uint64_t a, uint64_t b) { return asc ? d[a] < d[b] : d[a] > d[b]; });
  if (ref != ix) fail("wrong-order", "the portable sort orders %d values differently", m); sim::probe("portable sort");
}
// ---------------------------------------------------------------- unique
void opUnique() {
  bool large = sim::chance(1, 40); std::vector<int64_t> sh = large ? std::vector<int64_t>{20000 + (int64_t)sim::choose(20000), 1 + (int64_t)sim::choose(3)} : shape(6, 4, true);
  static const OM_DATA_TYPE ty[] = {ONNX_TYPE_FLOAT, ONNX_TYPE_INT64, ONNX_TYPE_INT32, ONNX_TYPE_UINT8, ONNX_TYPE_DOUBLE, ONNX_TYPE_BOOL, ONNX_TYPE_INT8, ONNX_TYPE_INT16, ONNX_TYPE_UINT16, ONNX_TYPE_UINT32, ONNX_TYPE_UINT64};
  OM_DATA_TYPE dt = ty[sim::choose(11)]; int kind = large ? 0 : sim::choose(4); Rng r{(uint64_t)sim::choose(1 << 20)}; OMTensor *x = tensor(dt, sh); fillVals(x, r, kind, false);
  int64_t axis = (int64_t)sim::choose(sh.size() + 1) - 1, n = omTensorGetNumElems(x); int sorted = sim::choose(2), outs = sim::choose(8);
  sim::op("unique type %d shape %s axis %lld sorted %d outputs %d kind %d", dt, shapeStr(sh).c_str(), (long long)axis, sorted, outs, kind);
  // the model: slices in row-major order of their elements
  const char *d = (const char *)omTensorGetDataPtr(x); int es = esz(dt); int64_t slices = axis < 0 ? n : sh[axis], per = axis < 0 ? 1 : 1, inner = 1, outer = 1;
  if (axis >= 0) { for (size_t i = 0; i < sh.size(); i++) if ((int64_t)i != axis) per *= sh[i]; for (size_t i = axis + 1; i < sh.size(); i++) inner *= sh[i]; for (int64_t i = 0; i < axis; i++) outer *= sh[i]; }
  auto at = [&](int64_t s, int64_t e) { return axis < 0 ? s : (e / inner) * inner * sh[axis] + s * inner + e % inner; };
  std::vector<int64_t> first, count, inv(slices); std::map<std::vector<long double>, int64_t> seen; std::vector<std::vector<long double>> key;
  for (int64_t s = 0; s < slices; s++) { std::vector<long double> v(per); for (int64_t e = 0; e < per; e++) v[e] = num(dt, d, at(s, e)); auto it = seen.find(v); if (it == seen.end()) { seen[v] = first.size(); inv[s] = first.size(); first.push_back(s); count.push_back(1); key.push_back(v); } else { inv[s] = it->second; count[it->second]++; } }
  int64_t cnt = first.size(); std::vector<int64_t> pos(cnt); std::iota(pos.begin(), pos.end(), 0); if (sorted) std::sort(pos.begin(), pos.end(), [&](int64_t a, int64_t b) { return key[a] < key[b]; });
  std::vector<int64_t> rank(cnt); for (int64_t i = 0; i < cnt; i++) rank[pos[i]] = i;
  Same same(x); OMTensor *tot = tensor(ONNX_TYPE_INT64, {1}); put<int64_t>(tot, 0, 0);
  callSut([&] { omTensorUniqueCount(tot, x, axis, sorted); }); same.check("unique"); int64_t got = *(int64_t *)omTensorGetDataPtr(tot);
  if (got != cnt) fail("wrong-count", "%lld unique values, expected %lld", (long long)got, (long long)cnt);
  // outputs exactly as large as the compiled code makes them; those the model does not use are empty
  std::vector<int64_t> ys = axis < 0 ? std::vector<int64_t>{cnt} : sh; if (axis >= 0) ys[axis] = cnt; OMTensor *Y = tensor(dt, ys), *none = tensor(ONNX_TYPE_INT64, {0});
  OMTensor *I = outs & 1 ? tensor(ONNX_TYPE_INT64, {cnt}) : none, *N = outs & 2 ? tensor(ONNX_TYPE_INT64, {slices}) : none, *C = outs & 4 ? tensor(ONNX_TYPE_INT64, {cnt}) : none; put<int64_t>(tot, 0, 0);
  callSut([&] { omTensorUnique(tot, Y, I, N, C, x, axis, sorted); }); same.check("unique"); got = *(int64_t *)omTensorGetDataPtr(tot);
  if (got != cnt) fail("wrong-count", "%lld unique values with all outputs, expected %lld", (long long)got, (long long)cnt);
  const char *y = (const char *)omTensorGetDataPtr(Y); int64_t *ip = (int64_t *)omTensorGetDataPtr(I), *np = (int64_t *)omTensorGetDataPtr(N), *cp = (int64_t *)omTensorGetDataPtr(C);
  for (int64_t i = 0; i < cnt; i++) {
    int64_t u = pos[i]; if ((outs & 1) && ip[i] != first[u]) fail("wrong-index", "unique value %lld first appears at %lld, reported %lld", (long long)i, (long long)first[u], (long long)ip[i]);
    if ((outs & 4) && cp[i] != count[u]) fail("wrong-counts", "unique value %lld appears %lld times, reported %lld", (long long)i, (long long)count[u], (long long)cp[i]);
    for (int64_t e = 0; e < per; e++) { int64_t o = axis < 0 ? i : (e / inner) * inner * cnt + i * inner + e % inner; if (memcmp(y + o * es, d + at(first[u], e) * es, es)) fail("wrong-values", "element %lld of unique value %lld is %Lg, expected %Lg", (long long)e, (long long)i, num(dt, y, o), num(dt, d, at(first[u], e))); }
  }
  if (outs & 2) for (int64_t s = 0; s < slices; s++) if (np[s] != rank[inv[s]]) fail("wrong-inverse", "slice %lld is unique value %lld, reported %lld", (long long)s, (long long)rank[inv[s]], (long long)np[s]);
  sim::probe(large ? "large unique" : axis < 0 ? "unique" : "unique by axis"); if (outs != 7) sim::probe("outputs left out"); sim::state("u" + std::to_string(dt) + "r" + std::to_string(sh.size()) + "a" + std::to_string(axis) + "s" + std::to_string(sorted) + "o" + std::to_string(outs));
  if (I != none) rm(I); if (N != none) rm(N); if (C != none) rm(C); rm(none); rm(Y); rm(tot); rm(x);
}
// ---------------------------------------------------------------- resize
double cubic(double t) { const double A = -0.75; t = std::fabs(t); return t <= 1 ? ((A + 2) * t - (A + 3)) * t * t + 1 : t < 2 ? ((A * t - 5 * A) * t + 8 * A) * t - 4 * A : 0; }
void opResize() {
  int rk = 1 + sim::choose(5); std::vector<int64_t> sh, os(rk); for (int i = 0; i < rk; i++) sh.push_back(1 + sim::choose(rk == 1 ? 9 : rk == 2 ? 6 : 3)); bool bySize = sim::chance(1, 2), isCubic = sim::chance(1, 2); std::vector<float> sc(rk); std::vector<int64_t> sz(rk);
  for (int i = 0; i < rk; i++) {
    if (sim::chance(1, 4) || rk > 4) { sc[i] = 1; os[i] = sz[i] = sh[i]; if (rk <= 4) continue; if (sim::chance(1, 2)) continue; }
    if (bySize) { os[i] = sz[i] = 1 + sim::choose(rk == 1 ? 70 : rk == 2 ? 24 : rk == 3 ? 7 : 4); sc[i] = (float)os[i] / sh[i]; }
    else { static const float f[] = {1, 2, 0.5f, 1.5f, 3, 0.25f, 1.25f, 2.75f, 0.6f, 2.3f}; sc[i] = f[sim::choose(rk > 3 ? 4 : 10)]; if ((int64_t)(sc[i] * sh[i]) < 1) sc[i] = 1; os[i] = (int64_t)(sc[i] * sh[i]); }
  }
  OMTensor *x = tensor(ONNX_TYPE_FLOAT, sh), *y = tensor(ONNX_TYPE_FLOAT, os), *p = tensor(bySize ? ONNX_TYPE_INT64 : ONNX_TYPE_FLOAT, {rk}); int64_t n = omTensorGetNumElems(x), m = omTensorGetNumElems(y); Rng r{(uint64_t)sim::choose(1 << 20)};
  float *in = (float *)omTensorGetDataPtr(x); for (int64_t i = 0; i < n; i++) in[i] = ((int)r.below(201) - 100) * 0.25f; for (int i = 0; i < rk; i++) if (bySize) put<int64_t>(p, i, sz[i]); else put<float>(p, i, sc[i]);
  sim::op("resize %s %s to %s by %s", isCubic ? "cubic" : "linear", shapeStr(sh).c_str(), shapeStr(os).c_str(), bySize ? "size" : "scale"); Same same(x), sameP(p); char mode[8]; strcpy(mode, isCubic ? "cubic" : "linear"); char nearest[20] = "round_prefer_floor";
  callSut([&] { if (bySize) Resize_Size(y, x, p, mode, nearest); else Resize_Scales(y, x, p, mode, nearest); }); same.check("resize"); sameP.check("resize");
  const float *out = (float *)omTensorGetDataPtr(y);
  for (int64_t i = 0; i < m; i++) {
    // separable: one weight vector per dimension
    std::vector<std::vector<std::pair<int64_t, double>>> w(rk); int64_t rest = i; for (int k = rk - 1; k >= 0; k--) { int64_t o = rest % os[k]; rest /= os[k]; double c = (o + 0.5) / (double)sc[k] - 0.5; int64_t b = (int64_t)std::floor(c); for (int64_t j = b - (isCubic ? 1 : 0); j <= b + (isCubic ? 2 : 1); j++) { double v = isCubic ? cubic(c - j) : std::max(0.0, 1 - std::fabs(c - j)); w[k].push_back({std::min(std::max<int64_t>(j, 0), sh[k] - 1), v}); } }
    double sum = 0; std::function<void(int, int64_t, double)> go = [&](int k, int64_t off, double f) { if (k == rk) { sum += f * in[off]; return; } for (auto &q : w[k]) if (q.second != 0) go(k + 1, off * sh[k] + q.first, f * q.second); }; go(0, 0, 1);
    if (!(std::fabs(sum - out[i]) <= 0.02)) fail("wrong-value", "output element %lld is %.6g, expected %.6g", (long long)i, out[i], sum);
  }
  sim::probe(isCubic ? "cubic" : "linear"); sim::state("z" + std::to_string(rk) + (isCubic ? "c" : "l") + (bySize ? "s" : "f")); rm(x); rm(y); rm(p);
}
// ---------------------------------------------------------------- index lookup
void opLookup() {
  int n = 1 + sim::choose(sim::chance(1, 10) ? 120 : 12); Rng r{(uint64_t)sim::choose(1 << 20)}; int kind = sim::choose(4); bool text = sim::chance(1, 2); std::vector<uint64_t> got; int32_t v = 0;
  sim::op("lookup in a dictionary of %d %s, kind %d", n, text ? "strings" : "integers", kind);
  if (text) {
    std::set<std::string> ks; while ((int)ks.size() < n) { std::string k; int len = kind == 0 ? 3 : r.below(kind == 1 ? 6 : 40); for (int i = 0; i < len; i++) k += kind == 0 ? 'a' + r.below(8) : 1 + r.below(255); ks.insert(k); }
    std::map<llvm::StringRef, int32_t> dict; std::vector<std::string> keys(ks.begin(), ks.end()); std::vector<int32_t> idx(n); std::iota(idx.begin(), idx.end(), 0); for (int i = n - 1; i > 0; i--) std::swap(idx[i], idx[r.below(i + 1)]); for (int i = 0; i < n; i++) dict[keys[i]] = idx[i];
    onnx_mlir::PerfectHash<llvm::StringRef, int32_t> h(dict); std::vector<int32_t> G(h.getG().begin(), h.getG().end()), V(h.getV().begin(), h.getV().end());
    for (int i = 0; i < n; i++) { uint64_t u; callSut([&] { u = find_index_str(keys[i].c_str(), G.data(), V.data(), (int32_t)G.size()); }); if (u != (uint64_t)idx[i]) fail("wrong-entry", "key %d of %d strings is entry %d, found entry %llu", i, n, idx[i], (unsigned long long)u); }
    // a key that is not there: any entry, but one that exists (compiled code compares it with the key)
    uint64_t u; callSut([&] { u = find_index_str("not in there", G.data(), V.data(), (int32_t)G.size()); }); if (u >= (uint64_t)n) fail("no-entry", "an unknown key gives entry %llu of %d", (unsigned long long)u, n);
  } else {
    std::set<int64_t> ks; while ((int)ks.size() < n) { int64_t k = kind == 0 ? (int64_t)r.below(400) - 200 : kind == 1 ? (int64_t)r.next() >> r.below(64) : kind == 2 ? (r.below(2) ? INT64_MIN + (int64_t)r.below(300) : INT64_MAX - (int64_t)r.below(300)) : -1000000000000000000ll - (int64_t)r.below(2000) * 10000000; ks.insert(k); }
    std::map<int64_t, int32_t> dict; std::vector<int64_t> keys(ks.begin(), ks.end()); std::vector<int32_t> idx(n); std::iota(idx.begin(), idx.end(), 0); for (int i = n - 1; i > 0; i--) std::swap(idx[i], idx[r.below(i + 1)]); for (int i = 0; i < n; i++) dict[keys[i]] = idx[i];
    onnx_mlir::PerfectHash<int64_t, int32_t> h(dict); std::vector<int32_t> G(h.getG().begin(), h.getG().end()), V(h.getV().begin(), h.getV().end());
    for (int i = 0; i < n; i++) { uint64_t u; callSut([&] { u = find_index_i64(keys[i], G.data(), V.data(), (int32_t)G.size()); }); if (u != (uint64_t)idx[i]) fail("wrong-entry", "key %lld is entry %d of %d, found entry %llu", (long long)keys[i], idx[i], n, (unsigned long long)u); }
    int64_t other; do other = (int64_t)r.next(); while (ks.count(other)); uint64_t u; callSut([&] { u = find_index_i64(other, G.data(), V.data(), (int32_t)G.size()); }); if (u >= (uint64_t)n) fail("no-entry", "an unknown key gives entry %llu of %d", (unsigned long long)u, n);
  }
  sim::probe(text ? "string lookup" : "integer lookup"); sim::state(std::string("l") + (text ? "s" : "i") + std::to_string(kind) + "n" + std::to_string(n / 4));
}
void run() {
  sim::Env env; sim::allocFaults(false, false); sim::armFaults(true);
  int n = 1 + sim::choose(4);
  for (int i = 0; i < n; i++) switch (sim::choose(8)) { case 0: opSort(false); break; case 1: case 2: opSort(true); break; case 3: case 4: opUnique(); break; case 5: opResize(); break; case 6: opLookup(); break; default: if (sim::chance(1, 3)) opCustomSort(); else opResize(); }
}
void warm() { sim::Sut s; }
} // namespace
int main(int argc, char **argv) { sim::Options o; return sim::simMain(argc, argv, o, warm, run); }
