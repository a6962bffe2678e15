// P06: tensors and tensor lists. P07: generated debug inputs. P20: seeded
// random operators. Real: OMTensor, OMTensorList, OMTensorHelper,
// OMTensorListHelper, ExecutionSession::fillInputDebug, OMRandom*.c.
// Stub: allocation failures, the system's entropy source (random_device), the
// C library's generator (rand/srand), the model library (P07).
#include "ExecutionSession.hpp"
#include "OMTensorHelper.hpp"
#include "OMTensorListHelper.hpp"
#include "simkit.h"
#include <cmath>
#include <cstring>
#include <errno.h>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
using sim::fail;
OMTensor *omTensorCreateUntyped(int64_t rank); void omTensorSetDataPtr(OMTensor *, int64_t, void *, void *);
extern "C" {
void get_random_normal_value_f64(double *, long long, double, double, double); void get_random_normal_value_f32(float *, long long, float, float, float);
OMTensor *run_uniform_random(OMTensor *, float, float, float); OMTensor *run_uniform_random_f32(OMTensor *, float, float, float); OMTensor *run_uniform_random_f64(OMTensor *, double, double, double);
}
// ---------------------------------------------------------------- entropy
namespace { uint64_t entropyBase; unsigned entropyReads; unsigned nextEntropy() { entropyReads++; uint64_t z = entropyBase + 0x9e3779b97f4a7c15ull * entropyReads; z ^= z >> 31; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 29; return (unsigned)z; } }
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() { return nextEntropy(); }
// ---------------------------------------------------------------- rand/srand
namespace { unsigned rseed = 1; uint64_t rpos; bool extremes; unsigned randCalls; }
extern "C" {
void __wrap_srand(unsigned s) { rseed = s; rpos = 0; }
int __wrap_rand() {
  randCalls++; rpos++; uint64_t z = rseed * 0x9e3779b97f4a7c15ull + rpos * 0xd1342543de82ef95ull; z ^= z >> 30; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 27; z *= 0x94d049bb133111ebull; z ^= z >> 31;
  if (extremes) { unsigned k = (z >> 40) & 31; if (k == 0) return 0; if (k == 1) return RAND_MAX; if (k == 2) return RAND_MAX - 40; }
  return (int)(z & RAND_MAX);
}
int __wrap_rand_r(unsigned *s) { unsigned a = rseed; uint64_t p = rpos; rseed = *s; rpos = 0; int r = __wrap_rand(); *s = (unsigned)r * 2654435761u + 12345; rseed = a; rpos = p; return r; }
}
// ---------------------------------------------------------------- loader (P07)
namespace { std::string modelSig; bool libOpen;
const char **mq(int64_t *n) { static const char *e[] = {"run_main_graph", nullptr}; if (n) *n = 1; return e; }
const char *msig(const char *) { return modelSig.c_str(); }
OMTensorList *mrun(OMTensorList *) { return nullptr; } }
extern "C" {
void *__real_dlopen(const char *, int); void *__real_dlsym(void *, const char *); int __real_dlclose(void *);
void *__wrap_dlopen(const char *p, int f) { if (!sim::active()) return __real_dlopen(p, f); libOpen = true; return &libOpen; }
int __wrap_dlclose(void *h) { if (!sim::active()) return __real_dlclose(h); libOpen = false; return 0; }
char *__wrap_dlerror() { return (char *)"simulated loader error"; }
void *__wrap_dlsym(void *h, const char *n) {
  if (!sim::active()) return __real_dlsym(h, n);
  sim::Env e; std::string s = n;
  if (s.rfind("omQueryEntryPoints", 0) == 0) return (void *)mq; if (s.rfind("omInputSignature", 0) == 0 || s.rfind("omOutputSignature", 0) == 0) return (void *)msig;
  if (s.rfind("run_main_graph", 0) == 0) return (void *)mrun; return nullptr;
}
}
namespace {
// ================================================================ P06
struct Buf { char *p; size_t n; int owner; }; // owner: tensor index, -1 caller, -2 released
struct Ten { OMTensor *t; bool alive; std::vector<int64_t> shape, strides; bool typed; OM_DATA_TYPE dt; int64_t owning; void *alloc, *aligned; int buf; int inList; size_t own = 0; };
struct Lst { OMTensorList *l; bool alive; std::vector<int> items; OMTensor **arr; };
std::vector<Buf> bufs; std::vector<Ten> ts; std::vector<Lst> ls;
const OM_DATA_TYPE allTypes[] = {ONNX_TYPE_FLOAT, ONNX_TYPE_UINT8, ONNX_TYPE_INT8, ONNX_TYPE_UINT16, ONNX_TYPE_INT16, ONNX_TYPE_INT32, ONNX_TYPE_INT64, ONNX_TYPE_STRING, ONNX_TYPE_BOOL, ONNX_TYPE_FLOAT16, ONNX_TYPE_DOUBLE, ONNX_TYPE_UINT32, ONNX_TYPE_UINT64, ONNX_TYPE_COMPLEX64, ONNX_TYPE_COMPLEX128, ONNX_TYPE_BFLOAT16};
int64_t sz(OM_DATA_TYPE t) { switch (t) { case ONNX_TYPE_UINT8: case ONNX_TYPE_INT8: case ONNX_TYPE_BOOL: return 1; case ONNX_TYPE_UINT16: case ONNX_TYPE_INT16: case ONNX_TYPE_FLOAT16: case ONNX_TYPE_BFLOAT16: return 2; case ONNX_TYPE_FLOAT: case ONNX_TYPE_INT32: case ONNX_TYPE_UINT32: return 4; case ONNX_TYPE_COMPLEX128: return 16; case ONNX_TYPE_UNDEFINED: return 0; default: return 8; } }
std::vector<int64_t> genShape(int maxRank = 5) { std::vector<int64_t> s(sim::choose(maxRank + 1)); for (auto &d : s) d = sim::chance(1, 10) ? 0 : 1 + sim::choose(4); return s; }
std::vector<int64_t> dense(const std::vector<int64_t> &s) { std::vector<int64_t> r(s.size()); int64_t k = 1; for (int i = (int)s.size() - 1; i >= 0; i--) { r[i] = k; k *= s[i]; } return r; }
int64_t elems(const std::vector<int64_t> &s) { int64_t k = 1; for (auto d : s) k *= d; return k; }
int newBuf(size_t n) { char *p; { sim::TagScope g(sim::TAG_MODEL); p = (char *)malloc(n); } memset(p, 0x11 + (int)bufs.size() % 64, n); bufs.push_back({p, n, -1}); return (int)bufs.size() - 1; }
int aliveT() { std::vector<int> v; for (size_t i = 0; i < ts.size(); i++) if (ts[i].alive) v.push_back(i); return v.empty() ? -1 : v[sim::choose(v.size())]; }
void checkT(int i, const char *after) {
  Ten &t = ts[i]; sim::Sut s;
  if (omTensorGetRank(t.t) != (int64_t)t.shape.size()) fail("wrong-rank", "after %s tensor %d reports rank %lld", after, i, (long long)omTensorGetRank(t.t));
  const int64_t *sh = omTensorGetShape(t.t), *st = omTensorGetStrides(t.t);
  for (size_t k = 0; k < t.shape.size(); k++) {
    if (t.typed || true) { if (sh[k] != t.shape[k]) fail("wrong-shape", "after %s dimension %zu of tensor %d is %lld, was set to %lld", after, k, i, (long long)sh[k], (long long)t.shape[k]); }
    if (st[k] != t.strides[k]) fail("wrong-strides", "after %s stride %zu of tensor %d is %lld, was set to %lld", after, k, i, (long long)st[k], (long long)t.strides[k]);
  }
  if (omTensorGetDataType(t.t) != t.dt) fail("wrong-type", "after %s tensor %d reports type %d instead of %d", after, i, omTensorGetDataType(t.t), t.dt);
  if (!!omTensorGetOwning(t.t) != !!t.owning) fail("wrong-owning", "after %s tensor %d reports owning %d", after, i, (int)omTensorGetOwning(t.t));
  if (omTensorGetDataPtr(t.t) != t.aligned) fail("wrong-data", "after %s tensor %d reports another data pointer", after, i);
  if (omTensorGetAllocatedPtr(t.t) != t.alloc) fail("wrong-data", "after %s tensor %d reports another allocated pointer", after, i);
  if (omTensorGetBufferSize(t.t) != elems(t.shape) * sz(t.dt)) fail("wrong-size", "after %s tensor %d reports %lld bytes instead of %lld", after, i, (long long)omTensorGetBufferSize(t.t), (long long)(elems(t.shape) * sz(t.dt)));
  if (t.strides == dense(t.shape) && omTensorGetNumElems(t.t) != elems(t.shape)) fail("wrong-size", "after %s tensor %d reports another number of elements", after, i);
}
void checkAll(const char *after) {
  for (size_t i = 0; i < ts.size(); i++) if (ts[i].alive) checkT(i, after);
  for (size_t i = 0; i < ls.size(); i++) if (ls[i].alive) {
    sim::Sut s; Lst &l = ls[i];
    if (omTensorListGetSize(l.l) != (int64_t)l.items.size()) fail("wrong-list", "after %s list %zu reports size %lld", after, i, (long long)omTensorListGetSize(l.l));
    OMTensor **a = omTensorListGetOmtArray(l.l);
    for (size_t k = 0; k < l.items.size(); k++) if (omTensorListGetOmtByIndex(l.l, k) != ts[l.items[k]].t || a[k] != ts[l.items[k]].t) fail("wrong-list", "after %s item %zu of list %zu is another tensor", after, k, i);
    if (omTensorListGetOmtByIndex(l.l, l.items.size()) || omTensorListGetOmtByIndex(l.l, -1)) fail("wrong-list", "list %zu returns a tensor beyond its end", i);
  }
  for (size_t i = 0; i < bufs.size(); i++) {
    Buf &b = bufs[i]; bool live = sim::ledgerIsLive(b.p);
    if (b.owner != -2 && !live) fail("data-released", "after %s buffer %zu (%s) is gone", after, i, b.owner == -1 ? "owned by the caller" : "owned by a live tensor");
    if (b.owner != -2) for (size_t k = 0; k < b.n; k++) if (b.p[k] != (char)(0x11 + (int)i % 64)) fail("data-changed", "after %s buffer %zu was modified", after, i);
  }
}
void released(int buf, const char *what) { // the buffer must have been freed just now
  Buf &b = bufs[buf]; b.owner = -2; if (sim::ledgerIsLive(b.p)) fail("data-leak", "%s did not release the data it owned", what);
}
void destroyT(int i) {
  Ten &t = ts[i]; int b = t.owning ? t.buf : -1; void *own = t.owning ? t.alloc : nullptr; { sim::Sut s; omTensorDestroy(t.t); }
  t.alive = false; if (b >= 0) released(b, "destroying the tensor"); else if (own && sim::ledgerIsLive(own)) fail("data-leak", "destroying the tensor did not release the data it owned");
}
void runP06() {
  sim::faultKinds({"malloc-fails"}); sim::allocFaults(true, false);
  sim::ledgerStart();
  int n = 3 + sim::choose(24);
  for (int k = 0; k < n; k++) {
    size_t live0 = sim::ledgerLive(1 << sim::TAG_SUT); unsigned f0 = sim::faultsFired();
    auto created = [&](OMTensor *t, const char *what, bool mayRefuse) {
      bool f = sim::faultsFired() != f0; sim::ev("  %s -> %s", what, t ? "tensor" : "null");
      if (t && mayRefuse) fail("invalid-accepted", "%s returned a tensor for a type without size", what);
      if (!t) { sim::probe("create failed"); if (!f && !mayRefuse) fail("spurious-failure", "%s failed although no allocation failed", what); size_t l = sim::ledgerLive(1 << sim::TAG_SUT); if (l != live0) fail("leak-on-failure", "a failed %s left %zd allocations behind: %s", what, (ssize_t)(l - live0), sim::ledgerDescribe(1 << sim::TAG_SUT).c_str()); }
      return t != nullptr;
    };
    switch (sim::choose(12)) {
    case 0: case 1: { // create over a caller's buffer
      auto shape = genShape(); OM_DATA_TYPE dt = allTypes[sim::choose(16)]; bool null = sim::chance(1, 6); int b = null ? -1 : newBuf(elems(shape) * sz(dt) + 1); bool with = sim::chance(1, 2); int64_t own = with && sim::chance(1, 2);
      sim::op("create rank %zu%s%s", shape.size(), with ? " with ownership" : "", own ? " owning" : ""); std::vector<int64_t> copy = shape; OMTensor *t; void *p = b < 0 ? nullptr : bufs[b].p;
      { sim::Sut s; t = with ? omTensorCreateWithOwnership(p, copy.data(), copy.size(), dt, own) : omTensorCreate(p, copy.data(), copy.size(), dt); }
      if (copy != shape) fail("caller-changed", "creating a tensor changed the caller's shape array");
      for (auto &d : copy) d = -77; // the tensor must have its own copy
      if (created(t, "create", false)) { ts.push_back({t, true, shape, dense(shape), true, dt, own, p, p, b, -1}); if (own && b >= 0) bufs[b].owner = ts.size() - 1; }
      break; }
    case 2: { // create with its own data
      auto shape = genShape(); bool bad = sim::chance(1, 8); OM_DATA_TYPE dt = bad ? (sim::chance(1, 2) ? ONNX_TYPE_UNDEFINED : (OM_DATA_TYPE)(ONNX_TYPE_LAST + 5)) : allTypes[sim::choose(16)];
      sim::op("create empty rank %zu type %d", shape.size(), dt); OMTensor *t; { sim::Sut s; t = omTensorCreateEmpty(shape.data(), shape.size(), dt); }
      if (created(t, "create empty", bad)) { void *p = omTensorGetDataPtr(t); if (!p) fail("incomplete", "a tensor created with its own data has none"); memset(p, 0x5a, elems(shape) * sz(dt)); ts.push_back({t, true, shape, dense(shape), true, dt, 1, p, p, -1, -1, (size_t)(elems(shape) * sz(dt))}); checkT(ts.size() - 1, "create empty"); }
      break; }
    case 3: { // create by element type
      auto shape = genShape(); int w = sim::choose(4); static const OM_DATA_TYPE dts[] = {ONNX_TYPE_FLOAT, ONNX_TYPE_INT64, ONNX_TYPE_BOOL, ONNX_TYPE_INT16}; sim::op("create with shape rank %zu", shape.size()); OMTensor *t;
      try { sim::Sut s; t = w == 0 ? omTensorCreateWithShape<float>(shape) : w == 1 ? omTensorCreateWithShape<int64_t>(shape) : w == 2 ? omTensorCreateWithShape<bool>(shape) : omTensorCreateWithShape<int16_t>(shape); }
      catch (const std::exception &e) { fail("spurious-failure", "creating a tensor of rank %zu raised %s", shape.size(), e.what()); }
      if (created(t, "create with shape", false)) { void *p = omTensorGetDataPtr(t); if (!p) fail("incomplete", "a tensor created with its own data has none"); memset(p, 0x5a, elems(shape) * sz(dts[w])); ts.push_back({t, true, shape, dense(shape), true, dts[w], 1, p, p, -1, -1, (size_t)(elems(shape) * sz(dts[w]))}); checkT(ts.size() - 1, "create with shape"); }
      break; }
    case 4: { // as the compiled entry point does it
      auto shape = genShape(); sim::op("create untyped rank %zu", shape.size()); OMTensor *t; { sim::Sut s; t = omTensorCreateUntyped(shape.size()); }
      if (created(t, "create untyped", false)) {
        if (omTensorGetRank(t) != (int64_t)shape.size() || omTensorGetDataPtr(t) || omTensorGetOwning(t) || omTensorGetDataType(t) != ONNX_TYPE_UNDEFINED) fail("incomplete", "an untyped tensor is not empty");
        OM_DATA_TYPE dt = allTypes[sim::choose(16)]; int b = newBuf(elems(shape) * sz(dt) + 9); bool own = sim::chance(1, 2); size_t off = sim::chance(1, 3) ? 8 : 0; auto st = dense(shape);
        sim::Sut s; omTensorSetDataType(t, dt); omTensorSetDataPtr(t, own, bufs[b].p, off ? bufs[b].p + off : nullptr); omTensorSetShape(t, shape.data()); omTensorSetStrides(t, st.data());
        sim::Env e; ts.push_back({t, true, shape, st, true, dt, own, bufs[b].p, bufs[b].p + off, b, -1}); if (own) bufs[b].owner = ts.size() - 1;
      }
      break; }
    case 5: { // replace the data
      int i = aliveT(); if (i < 0) break; Ten &t = ts[i]; if (elems(t.shape) > 1 << 20) break; int b = newBuf(elems(t.shape) * sz(t.dt) + 17); bool own = sim::chance(1, 2); size_t off = sim::chance(1, 3) ? 16 : 0; sim::op("set data of %d%s%s", i, own ? " owning" : "", off ? " with offset" : "");
      int ob = t.owning ? t.buf : -1; void *oa = t.owning ? t.alloc : nullptr;
      { sim::Sut s; omTensorSetDataPtr(t.t, own, bufs[b].p, off ? bufs[b].p + off : nullptr); }
      if (ob >= 0) released(ob, "replacing the data"); else if (oa && sim::ledgerIsLive(oa)) fail("data-leak", "replacing the data did not release the data the tensor owned");
      t.alloc = bufs[b].p; t.aligned = bufs[b].p + off; t.owning = own; t.buf = b; if (own) bufs[b].owner = i;
      break; }
    case 6: { // change ownership
      int i = aliveT(); if (i < 0) break; Ten &t = ts[i]; if (t.buf < 0 && t.alloc) { // take the data out of the tensor
          if (!t.owning) break; sim::op("take data of %d", i); { sim::Sut s; omTensorSetOwning(t.t, 0); } t.owning = 0; size_t n2 = t.own; memset(t.alloc, 0x11 + (int)bufs.size() % 64, n2); bufs.push_back({(char *)t.alloc, n2, -1}); t.buf = bufs.size() - 1; break; }
      if (t.buf >= 0 && bufs[t.buf].owner == -2) break; bool own = !t.owning; sim::op("set owning of %d to %d", i, own); { sim::Sut s; omTensorSetOwning(t.t, own); } t.owning = own; if (t.buf >= 0) bufs[t.buf].owner = own ? i : -1;
      break; }
    case 7: { // new shape, strides or type
      int i = aliveT(); if (i < 0) break; Ten &t = ts[i]; int w = sim::choose(4); std::vector<int64_t> v(t.shape.size());
      for (auto &d : v) d = sim::choose(6);
      if (w == 0 && !v.empty() && sim::chance(1, 6)) { // more elements than 32 bits count; the data is not touched
        static const int64_t H[] = {65536, 46341, 3000000000LL, 1 << 20, 1, 7}; int64_t k = 1; for (auto &d : v) { d = H[sim::choose(6)]; if (k > (1LL << 56) / d) d = 1; k *= d; }
        sim::op("set a large shape of %d", i); { sim::Sut s; omTensorSetShape(t.t, v.data()); } t.shape = v; v = dense(v); { sim::Sut s; omTensorSetStrides(t.t, v.data()); } t.strides = v; break;
      }
      if (w == 0) { sim::op("set shape of %d", i); { sim::Sut s; omTensorSetShape(t.t, v.data()); } t.shape = v; }
      else if (w == 1) { sim::op("set strides of %d", i); { sim::Sut s; omTensorSetStrides(t.t, v.data()); } t.strides = v; }
      else if (w == 2) { sim::op("set byte strides of %d", i); auto bytes = v; for (auto &d : bytes) d = (d - 2) * sz(t.dt); { sim::Sut s; omTensorSetStridesWithPyArrayStrides(t.t, bytes.data()); } for (size_t q = 0; q < v.size(); q++) t.strides[q] = v[q] - 2; }
      else { OM_DATA_TYPE dt = allTypes[sim::choose(16)]; sim::op("set type of %d", i); { sim::Sut s; omTensorSetDataType(t.t, dt); } t.dt = dt; }
      break; }
    case 8: { int i = aliveT(); if (i < 0 || ts[i].inList >= 0) break; sim::op("destroy %d", i); destroyT(i); break; }
    case 9: { // list
      std::vector<int> items; for (size_t i = 0; i < ts.size(); i++) if (ts[i].alive && ts[i].inList < 0 && sim::chance(1, 2)) items.push_back(i);
      std::vector<OMTensor *> arr; for (int i : items) arr.push_back(ts[i].t); auto copy = arr; sim::op("create list of %zu", items.size()); OMTensorList *l;
      { sim::Sut s; l = omTensorListCreate(arr.data(), arr.size()); }
      if (arr != copy) fail("caller-changed", "creating a list changed the caller's array");
      for (auto &p : arr) p = (OMTensor *)1;
      if (!l) { sim::probe("create failed"); if (sim::faultsFired() == f0) fail("spurious-failure", "creating a list failed although no allocation failed"); if (sim::ledgerLive(1 << sim::TAG_SUT) != live0) fail("leak-on-failure", "a failed list creation left allocations behind or released tensors: %s", sim::ledgerDescribe(1 << sim::TAG_SUT).c_str()); }
      else { for (int i : items) ts[i].inList = ls.size(); ls.push_back({l, true, items, nullptr}); }
      break; }
    case 10: { // destroy a list with or without its tensors
      std::vector<int> v; for (size_t i = 0; i < ls.size(); i++) if (ls[i].alive) v.push_back(i); if (v.empty()) break; int i = sim::pick(v); Lst &l = ls[i]; bool shallow = sim::chance(1, 2); sim::op("destroy list %d%s", i, shallow ? " shallow" : "");
      std::vector<std::pair<int, void *>> own; for (int t : l.items) if (ts[t].owning) own.push_back({ts[t].buf, ts[t].alloc});
      { sim::Sut s; if (shallow) omTensorListDestroyShallow(l.l); else omTensorListDestroy(l.l); } l.alive = false;
      if (shallow) for (int t : l.items) ts[t].inList = -1;
      else { for (int t : l.items) ts[t].alive = false; for (auto &o : own) if (o.first >= 0) released(o.first, "destroying the list"); else if (o.second && sim::ledgerIsLive(o.second)) fail("data-leak", "destroying the list did not release the data of a tensor"); }
      break; }
    default: { // strings and null arguments
      if (sim::chance(1, 2)) {
        std::vector<std::string> strs(sim::choose(5)); for (auto &x : strs) x = std::string(sim::choose(6), 'a' + sim::choose(26)); sim::op("build string buffer of %zu", strs.size()); void *p; { sim::Sut s; p = omTensorBuildStringBuffer(strs); }
        if (!p) { if (sim::faultsFired() == f0) fail("spurious-failure", "building a string buffer failed although no allocation failed"); if (sim::ledgerLive(1 << sim::TAG_SUT) != live0) fail("leak-on-failure", "a failed string buffer left allocations behind"); }
        else { for (size_t q = 0; q < strs.size(); q++) if (strs[q] != ((char **)p)[q]) fail("wrong-data", "string %zu of a string buffer differs", q); free(p); }
      } else { sim::op("null arguments"); sim::Sut s; omTensorDestroy(nullptr); omTensorListDestroy(nullptr); omTensorListDestroyShallow(nullptr); omTensorSetDataPtr(nullptr, 1, nullptr, nullptr); omTensorSetOwning(nullptr, 1); omTensorSetShape(nullptr, nullptr); omTensorSetStrides(nullptr, nullptr);
        if (omTensorGetDataPtr(nullptr) || omTensorGetShape(nullptr) || omTensorGetRank(nullptr) || omTensorGetBufferSize(nullptr) || omTensorListGetSize(nullptr) || omTensorListGetOmtArray(nullptr) || omTensorListGetOmtByIndex(nullptr, 0)) fail("null-argument", "a getter returned something for no object"); }
    } }
    checkAll("the operation");
    char sb[96]; int nt = 0, nl = 0, nown = 0; for (auto &t : ts) { nt += t.alive; nown += t.alive && t.owning; } for (auto &l : ls) nl += l.alive; snprintf(sb, sizeof sb, "%d/%d/%d/%d", nt, nown, nl, sim::faultsFired() > 0); sim::state(std::string(sb));
  }
  sim::armFaults(false); sim::op("tear down");
  for (auto &l : ls) if (l.alive) { sim::Sut s; omTensorListDestroyShallow(l.l); }
  for (size_t i = 0; i < ts.size(); i++) if (ts[i].alive) destroyT(i);
  for (size_t i = 0; i < bufs.size(); i++) if (bufs[i].owner == -1) free(bufs[i].p);
  if (sim::ledgerLive((1 << sim::TAG_SUT) | (1 << sim::TAG_MODEL))) fail("leak", "left at the end: %s", sim::ledgerDescribe((1 << sim::TAG_SUT) | (1 << sim::TAG_MODEL)).c_str());
}
// ================================================================ P07
struct TypeInfo { const char *sig, *np; OM_DATA_TYPE t; bool flt, sgn; double lo, hi; bool numeric; };
const TypeInfo TI[] = {
  {"f32", "float32", ONNX_TYPE_FLOAT, true, true, -1e6, 1e6, true}, {"f64", "float64", ONNX_TYPE_DOUBLE, true, true, -1e6, 1e6, true}, {"f16", "float16", ONNX_TYPE_FLOAT16, true, true, -1000, 1000, true},
  {"i8", "int8", ONNX_TYPE_INT8, false, true, -128, 127, true}, {"ui8", "uint8", ONNX_TYPE_UINT8, false, false, 0, 255, true}, {"i16", "int16", ONNX_TYPE_INT16, false, true, -32768, 32767, true}, {"ui16", "uint16", ONNX_TYPE_UINT16, false, false, 0, 65535, true},
  {"i32", "int32", ONNX_TYPE_INT32, false, true, -2147483648.0, 2147483647.0, true}, {"ui32", "uint32", ONNX_TYPE_UINT32, false, false, 0, 4294967295.0, true}, {"i64", "int64", ONNX_TYPE_INT64, false, true, -9007199254740992.0, 9007199254740992.0, true}, {"ui64", "uint64", ONNX_TYPE_UINT64, false, false, 0, 18446744073709549568.0, true},
  {"i1", "bool_", ONNX_TYPE_BOOL, false, false, 0, 1, true}, {"string", "str_", ONNX_TYPE_STRING, false, true, -1000, 100000, false}, {"float", "float32", ONNX_TYPE_FLOAT, true, true, -1e6, 1e6, true}, {"double", "float64", ONNX_TYPE_DOUBLE, true, true, -1e6, 1e6, true}};
const int NTI = sizeof TI / sizeof TI[0];
struct In { int ti; std::vector<int64_t> dims, shape; double lo, hi; int soz; bool hasSoz; };
struct Req { std::string sig, shp, val, lb, ub; bool useShp, useVal, useLb, useUb; bool invalid; const char *why; std::vector<In> in; };
double dlo(const TypeInfo &t) { return t.flt ? -0.1 : t.t == ONNX_TYPE_BOOL || t.t == ONNX_TYPE_STRING ? 0 : t.sgn ? -10 : 0; }
double dhi(const TypeInfo &t) { return t.flt ? 0.1 : t.t == ONNX_TYPE_BOOL ? 1 : t.t == ONNX_TYPE_STRING ? 63 : 10; }
double rndVal(const TypeInfo &t) { if (t.flt) { static const double v[] = {0, 1, -1, 0.5, -0.25, 100, -100, 7.75}; return v[sim::choose(8)]; } switch (sim::choose(8)) { case 0: return 0; case 1: return t.hi; case 2: return t.lo; case 3: return t.sgn ? -5 : 3; default: return t.t == ONNX_TYPE_BOOL ? sim::choose(2) : (double)sim::choose(100); } }
std::string num(double v) { char b[64]; snprintf(b, sizeof b, v == std::floor(v) ? "%.0f" : "%g", v); return b; }
Req genReq() {
  Req r; r.invalid = false; r.why = ""; r.useShp = r.useVal = r.useLb = r.useUb = false; int n = 1 + sim::choose(4);
  for (int i = 0; i < n; i++) { In x; x.ti = sim::choose(NTI); int rank = sim::choose(4); for (int d = 0; d < rank; d++) x.dims.push_back(sim::chance(1, 12) ? 0 : 1 + sim::choose(5)); x.hasSoz = false; r.in.push_back(x); }
  // dynamic dimensions and shape overrides
  for (int i = 0; i < n; i++) { In &x = r.in[i]; x.shape = x.dims; bool dyn = false; for (auto &d : x.dims) if (sim::chance(1, 4)) { d = -1; dyn = true; }
    bool ov = dyn || sim::chance(1, 6); if (!ov || x.dims.empty()) continue;
    std::string o; for (size_t d = 0; d < x.dims.size(); d++) { bool keep = x.dims[d] >= 0 && sim::chance(1, 2); o += (d ? "x" : "") + (keep ? std::string("-1") : std::to_string(x.shape[d])); }
    r.shp += (r.shp.empty() ? "" : ",") + std::to_string(i) + ":" + o; r.useShp = true; }
  std::map<OM_DATA_TYPE, double> lb, ub;
  for (int w = 0; w < 2; w++) if (sim::chance(1, 4)) { // per type bounds, both sides of one type
    const TypeInfo &t = TI[sim::choose(12)]; double a = rndVal(t), b = rndVal(t); if (a > b) std::swap(a, b); if (lb.count(t.t)) continue; lb[t.t] = a; ub[t.t] = b;
    r.lb += (r.lb.empty() ? "" : ",") + std::string(t.np) + ":" + num(a); r.ub += (r.ub.empty() ? "" : ",") + std::string(t.np) + ":" + num(b); r.useLb = r.useUb = true; }
  for (int i = 0; i < n; i++) { In &x = r.in[i]; const TypeInfo &t = TI[x.ti]; x.lo = lb.count(t.t) ? lb[t.t] : dlo(t); x.hi = ub.count(t.t) ? ub[t.t] : dhi(t);
    if (!sim::chance(1, 2)) continue; std::string spec;
    switch (sim::choose(4)) {
    case 0: { double v = rndVal(t); x.lo = x.hi = v; spec = "val" + num(v); break; }
    case 1: { double a = rndVal(t), b = rndVal(t); if (a > b) std::swap(a, b); x.lo = a; x.hi = b; spec = "min" + num(a) + (sim::chance(1, 2) ? " " : "") + "max" + num(b); break; }
    case 2: { double a = rndVal(t); if (a > x.hi) break; x.lo = a; spec = "min" + num(a); break; }
    default: { if (!t.numeric || t.t == ONNX_TYPE_FLOAT16 || x.dims.empty()) break; x.hasSoz = true; x.soz = (int)sim::choose(8) - 1; spec = "soz" + std::to_string(x.soz); } }
    if (spec.empty()) continue; r.val += (r.val.empty() ? "" : ",") + std::to_string(i) + ":" + spec; r.useVal = true; }
  // one invalid request in five
  if (sim::chance(1, 5)) {
    int i = sim::choose(n); bool inv = true; auto add = [](std::string &s, const std::string &x) { s += (s.empty() ? "" : ",") + x; };
    switch (sim::choose(13)) {
    case 0: add(r.shp, std::to_string(n) + ":1"); r.useShp = true; r.why = "input number out of range"; break;
    case 1: add(r.val, "-2:min0"); r.useVal = true; r.why = "negative input number"; break;
    case 2: add(r.val, std::to_string(i) + ":foo3"); r.useVal = true; r.why = "unknown keyword"; break;
    case 3: add(r.val, std::to_string(i) + ":soz1 min0"); r.useVal = true; r.why = "soz with min"; break;
    case 4: add(r.val, std::to_string(i) + ":soz-2"); r.useVal = true; r.why = "soz below -1"; break;
    case 5: add(r.shp, std::to_string(i) + ":2xq"); r.useShp = true; r.why = "no number in shape"; break;
    case 6: add(r.lb, "float99:1"); r.useLb = true; r.why = "unknown type in bounds"; break;
    case 7: add(r.ub, "int8"); r.useUb = true; r.why = "bound without value"; break;
    case 8: { In &x = r.in[i]; if (x.dims.empty() || TI[x.ti].t == ONNX_TYPE_STRING) { inv = false; break; } r.in[i].dims[0] = -1; r.shp = ""; r.useShp = false; r.why = "dimension left dynamic"; break; }
    case 9: { In &x = r.in[i]; if (x.dims.empty()) { inv = false; break; } x.dims[0] = 3; add(r.shp, std::to_string(i) + ":4"); r.useShp = true; r.why = "override conflicts with signature"; break; }
    case 10: add(r.val, std::to_string(i) + "-" + std::to_string(n + 3) + ":min0"); r.useVal = true; r.why = "range end out of range"; break;
    case 11: { In &x = r.in[i]; if (x.hasSoz) { inv = false; break; } const TypeInfo &t = TI[x.ti]; if (t.t == ONNX_TYPE_BOOL) { inv = false; break; } add(r.val, std::to_string(i) + ":min40 max20"); r.useVal = true; r.why = "lower bound above upper bound"; break; }
    default: r.why = "unknown type in signature"; r.in[i].ti = -1; }
    r.invalid = inv;
  }
  r.sig = "["; for (int i = 0; i < n; i++) { std::string d; for (size_t k = 0; k < r.in[i].dims.size(); k++) d += (k ? " , " : "") + std::to_string(r.in[i].dims[k]); r.sig += std::string(i ? " , " : " ") + "{ \"type\" : \"" + (r.in[i].ti < 0 ? "f33" : TI[r.in[i].ti].sig) + "\" , \"dims\" : [" + d + "] , \"name\" : \"in" + std::to_string(i) + "\" }"; } r.sig += "\n]";
  return r;
}
float h2f(uint16_t h) { int s = h >> 15, e = (h >> 10) & 31, m = h & 1023; float v = e == 0 ? std::ldexp((float)m, -24) : e == 31 ? (m ? NAN : INFINITY) : std::ldexp((float)(m | 1024), e - 25); return s ? -v : v; }
double elem(OM_DATA_TYPE t, const void *p, int64_t i) {
  switch (t) { case ONNX_TYPE_FLOAT: return ((float *)p)[i]; case ONNX_TYPE_DOUBLE: return ((double *)p)[i]; case ONNX_TYPE_FLOAT16: return h2f(((uint16_t *)p)[i]); case ONNX_TYPE_INT8: return ((int8_t *)p)[i]; case ONNX_TYPE_UINT8: case ONNX_TYPE_BOOL: return ((uint8_t *)p)[i];
  case ONNX_TYPE_INT16: return ((int16_t *)p)[i]; case ONNX_TYPE_UINT16: return ((uint16_t *)p)[i]; case ONNX_TYPE_INT32: return ((int32_t *)p)[i]; case ONNX_TYPE_UINT32: return ((uint32_t *)p)[i]; case ONNX_TYPE_INT64: return (double)((int64_t *)p)[i]; case ONNX_TYPE_UINT64: return (double)((uint64_t *)p)[i]; default: return NAN; }
}
std::string bytesOf(OMTensorList *l) { // the generated data, by value
  std::string s; for (int64_t i = 0; i < omTensorListGetSize(l); i++) { OMTensor *t = omTensorListGetOmtByIndex(l, i); int64_t n = omTensorGetNumElems(t); if (omTensorGetDataType(t) == ONNX_TYPE_STRING) for (int64_t k = 0; k < n; k++) s += std::string(((char **)omTensorGetDataPtr(t))[k]) + "\n"; else s.append((char *)omTensorGetDataPtr(t), omTensorGetBufferSize(t)); s += "|"; }
  return s;
}
void checkReq(const Req &r, OMTensorList *l) {
  if (omTensorListGetSize(l) != (int64_t)r.in.size()) fail("wrong-inputs", "%lld tensors were generated for %zu inputs", (long long)omTensorListGetSize(l), r.in.size());
  for (size_t i = 0; i < r.in.size(); i++) {
    const In &x = r.in[i]; const TypeInfo &ti = TI[x.ti]; OMTensor *t = omTensorListGetOmtByIndex(l, i);
    if (!t) fail("wrong-inputs", "input %zu has no tensor", i);
    if (omTensorGetDataType(t) != ti.t) fail("wrong-type", "input %zu has type %d instead of %d", i, omTensorGetDataType(t), ti.t);
    if (omTensorGetRank(t) != (int64_t)x.shape.size()) fail("wrong-shape", "input %zu has rank %lld", i, (long long)omTensorGetRank(t));
    for (size_t d = 0; d < x.shape.size(); d++) if (omTensorGetShape(t)[d] != x.shape[d]) fail("wrong-shape", "dimension %zu of input %zu is %lld instead of %lld", d, i, (long long)omTensorGetShape(t)[d], (long long)x.shape[d]);
    int64_t n = elems(x.shape); const void *p = omTensorGetDataPtr(t); if (!p || !omTensorGetOwning(t)) fail("wrong-inputs", "input %zu has no data of its own", i);
    if (ti.t == ONNX_TYPE_STRING) { for (int64_t k = 0; k < n; k++) { const char *s = ((char **)p)[k]; char *e; long v = strtol(s, &e, 10); if (!*s || *e || v < x.lo || v > x.hi) fail("out-of-bounds", "element %lld of string input %zu is \"%s\", bounds [%g, %g]", (long long)k, i, s, x.lo, x.hi); } continue; }
    if (x.hasSoz) { int64_t in = x.shape.back(); for (int64_t k = 0; k < n / (in ? in : 1); k++) { int64_t ones = 0; while (ones < in && elem(ti.t, p, k * in + ones) == 1) ones++; for (int64_t q = ones; q < in; q++) if (elem(ti.t, p, k * in + q) != 0) fail("wrong-pattern", "row %lld of input %zu is not ones followed by zeros", (long long)k, i);
        if (x.soz >= 0 ? ones != std::min<int64_t>(x.soz, in) : ones < 1 || ones > std::max<int64_t>(1, in - 1)) fail("wrong-pattern", "row %lld of input %zu has %lld ones (soz%d, %lld wide)", (long long)k, i, (long long)ones, x.soz, (long long)in); } continue; }
    double lo = x.lo, hi = x.hi; if (ti.t == ONNX_TYPE_FLOAT) { lo = (float)lo; hi = (float)hi; } if (ti.t == ONNX_TYPE_FLOAT16) { lo -= std::fabs(lo) * 0.001 + 1e-7; hi += std::fabs(hi) * 0.001 + 1e-7; } if (ti.t == ONNX_TYPE_BOOL) { lo = lo > 0.5; hi = hi > 0.5; }
    for (int64_t k = 0; k < n; k++) { double v = elem(ti.t, p, k); if (!(v >= lo && v <= hi)) fail("out-of-bounds", "element %lld of input %zu (%s) is %g, bounds [%g, %g]", (long long)k, i, ti.sig, v, lo, hi); }
  }
}
const char *C(bool u, const std::string &s) { return u ? s.c_str() : nullptr; }
void runP07() {
  sim::faultKinds({"malloc-fails"}); sim::allocFaults(true, false);
  std::vector<Req> reqs; int nr = 1 + sim::choose(3); for (int i = 0; i < nr; i++) reqs.push_back(genReq());
  // results by (generator state): after seeding, the sequence of requests decides
  std::map<std::string, std::string> seen; // "seed/requests so far" -> data
  std::string gen = "?"; unsigned before = 0; bool everSeeded = false;
  std::unique_ptr<onnx_mlir::ExecutionSession> es; modelSig = "x"; { sim::Env e; sim::armFaults(false); es.reset(new onnx_mlir::ExecutionSession("/models/m.so", "NONE")); }
  sim::armFaults(true); sim::ledgerStart();
  int n = 2 + sim::choose(10);
  for (int k = 0; k < n; k++) {
    size_t live0 = sim::ledgerLive(1 << sim::TAG_SUT); unsigned f0 = sim::faultsFired(); int w = sim::choose(6);
    if (w == 0) { unsigned s = sim::choose(4); sim::op("define seed %u", s); unsigned got; { sim::Sut z; got = omDefineSeed(s, 1); } if (got != s) fail("wrong-seed", "seed %u was given, %u is reported", s, got); gen = "s" + std::to_string(s); everSeeded = true; continue; }
    if (w == 1) { entropyBase = sim::choose(3); entropyReads = 0; sim::op("define own seed, entropy %llu", (unsigned long long)entropyBase); unsigned got; { sim::Sut z; got = omDefineSeed(7, 0); } if (!entropyReads) fail("no-entropy", "a seed was made up without asking the system's entropy source"); gen = "s" + std::to_string(got); everSeeded = true; continue; }
    int ri = sim::choose(reqs.size()); Req &r = reqs[ri]; bool viaSession = w >= 4; int seed = viaSession ? (int)sim::choose(4) - 1 : -2; OMTensorList *l = nullptr; bool threw = false;
    entropyBase = 100 + sim::choose(3); entropyReads = 0; sim::op("generate request %d%s%s%s", ri, viaSession ? " by session, seed " : "", viaSession ? std::to_string(seed).c_str() : "", r.invalid ? " (invalid)" : "");
    if (k == 0 || sim::verbose()) sim::ev("  sig %s shape '%s' value '%s' lb '%s' ub '%s' %s", r.sig.c_str(), r.shp.c_str(), r.val.c_str(), r.lb.c_str(), r.ub.c_str(), r.why);
    modelSig = r.sig;
    if (viaSession) { try { sim::Sut z; l = es->fillInputDebug(C(r.useShp, r.shp), C(r.useVal, r.val), C(r.useLb, r.lb), C(r.useUb, r.ub), seed, false); if (!l) fail("null-result", "fillInputDebug returned nothing without an error"); } catch (const onnx_mlir::ExecutionSessionException &) { threw = true; } catch (const std::exception &e) { fail("foreign-exception", "generating inputs raised %s", e.what()); } }
    else { try { sim::Sut z; l = omTensorListCreateFromInputSignature(r.sig.c_str(), C(r.useShp, r.shp), C(r.useVal, r.val), C(r.useLb, r.lb), C(r.useUb, r.ub), false); } catch (const std::exception &e) { fail("foreign-exception", "generating inputs raised %s", e.what()); } }
    bool f = sim::faultsFired() != f0;
    std::string key; // what may decide the data
    if (seed >= 0) { gen = "s" + std::to_string(seed); everSeeded = true; } else if (seed == -1 || !everSeeded) key = std::string("entropy") + (viaSession ? "S" : "D") + std::to_string(entropyBase) + "/" + std::to_string(ri);
    if (key.empty()) { key = gen + "/" + std::to_string(ri); }
    if (!l) {
      sim::probe(r.invalid ? "invalid request refused" : "request failed by a fault"); if (!r.invalid && !f) fail("spurious-failure", "a valid request failed");
      size_t live = sim::ledgerLive(1 << sim::TAG_SUT); if (live != live0) fail("leak-on-failure", "a failed request left %zd allocations behind: %s", (ssize_t)(live - live0), sim::ledgerDescribe(1 << sim::TAG_SUT).c_str());
      gen = seed == -1 || !everSeeded ? gen : "?"; if (seed == -1) { everSeeded = true; gen = "?"; }
      if (gen == "?") gen = "?" + std::to_string(k); // unknown position in the sequence
      continue;
    }
    if (r.invalid) fail("invalid-accepted", "an invalid request was accepted: %s", r.why);
    if (f) fail("failure-swallowed", "an allocation failed but a result was reported");
    checkReq(r, l);
    bool random = false; for (auto &x : r.in) if (elems(x.shape) && (x.hasSoz ? x.soz < 0 : x.lo != x.hi)) random = true;
    std::string data = bytesOf(l); 
    if ((seed == -1 || (seed == -2 && !everSeeded)) && random && !entropyReads) fail("no-entropy", "data without a seed was generated without asking the system's entropy source");
    auto it = seen.find(key); if (it != seen.end() && it->second != data) fail("not-reproducible", "the same request gave other data than before (%s)", key.compare(0, 7, "entropy") == 0 ? "unseeded, same answers of the entropy source" : "same seed and requests since");
    if (it != seen.end()) sim::probe("repeated request compared");
    seen[key] = data;
    if (seed == -1) { everSeeded = true; gen = "?" + std::to_string(k); } else if (seed != -2 || everSeeded) gen = key;
    { sim::Sut z; omTensorListDestroy(l); }
    if (sim::ledgerLive(1 << sim::TAG_SUT) != live0) fail("leak", "destroying the generated inputs left allocations behind: %s", sim::ledgerDescribe(1 << sim::TAG_SUT).c_str());
    sim::state(std::to_string(r.in.size()) + (everSeeded ? "s" : "u") + std::to_string(seed) + (random ? "r" : "c"));
  }
  (void)before;
}
// ================================================================ P20
void runP20() {
  extremes = sim::chance(1, 2); std::map<std::string, std::vector<double>> seen; sim::allocFaults(false, false);
  int n = 3 + sim::choose(14);
  for (int k = 0; k < n; k++) {
    int w = sim::choose(6);
    if (w == 5) { int q = sim::choose(3); sim::op("application uses the C generator (%d)", q); if (q == 0) __wrap_srand(sim::choose(5)); else for (int i = 0; i < q * 3; i++) __wrap_rand(); sim::countFault("foreign-use-of-generator"); continue; }
    unsigned seed = 2 + sim::choose(4) * (sim::chance(1, 3) ? 1000 : 1); int64_t len = 1 + sim::choose(24); int p = sim::choose(3);
    static const double lows[] = {0, -1, 100}, highs[] = {1, 5, 100.5}, means[] = {0, 3, -100}, scales[] = {1, 0.5, 20};
    std::vector<double> out(len); bool uni = w >= 2; char key[64]; snprintf(key, sizeof key, "%d/%u/%d", w == 4 ? 2 : w, seed, p);
    double lo = lows[p], hi = highs[p]; sim::op("operator %d seed %u size %lld distribution %d", w, seed, (long long)len, p);
    if (w == 0) { std::vector<float> b(len, NAN); { sim::Sut s; get_random_normal_value_f32(b.data(), len, means[p], scales[p], seed); } out.assign(b.begin(), b.end()); }
    else if (w == 1) { std::fill(out.begin(), out.end(), NAN); sim::Sut s; get_random_normal_value_f64(out.data(), len, means[p], scales[p], seed); }
    else { bool d = w == 3; OM_DATA_TYPE dt = d ? ONNX_TYPE_DOUBLE : ONNX_TYPE_FLOAT; std::vector<int64_t> sh = {1, len}; OMTensor *t = omTensorCreateEmpty(sh.data(), 2, dt), *r; 
      for (int64_t i = 0; i < len; i++) if (d) ((double *)omTensorGetDataPtr(t))[i] = NAN; else ((float *)omTensorGetDataPtr(t))[i] = NAN;
      { sim::Sut s; r = w == 4 || d ? run_uniform_random(t, lo, hi, seed) : run_uniform_random_f32(t, lo, hi, seed); }
      if (r != t) fail("wrong-result", "the operator did not return its output tensor"); for (int64_t i = 0; i < len; i++) out[i] = elem(dt, omTensorGetDataPtr(t), i); omTensorDestroy(t); }
    double eps = w == 3 ? 1e-12 : 1e-5 * std::max(std::fabs(lo), std::fabs(hi));
    for (int64_t i = 0; i < len; i++) { if (!std::isfinite(out[i])) fail("not-finite", "element %lld is not a finite number (%g)", (long long)i, out[i]); if (uni && (out[i] < lo - eps || out[i] > hi + eps)) fail("out-of-range", "element %lld is %.9g, range [%g, %g]", (long long)i, out[i], lo, hi); }
    auto &s = seen[key]; size_t m = std::min(s.size(), out.size()); for (size_t i = 0; i < m; i++) if (s[i] != out[i]) fail("not-reproducible", "element %zu is %.9g, was %.9g for the same seed, type and distribution", i, out[i], s[i]);
    if (m) sim::probe("same request compared");
    if (out.size() > s.size()) s = out;
    // another seed gives other values (compared only where a coincidence is out of the question)
    if (s.size() >= 12) for (auto &o : seen) if (o.first != key && o.first.substr(0, 2) == std::string(key).substr(0, 2) && o.first.back() == key[strlen(key) - 1] && o.second.size() >= 12 && std::equal(s.begin(), s.begin() + 12, o.second.begin())) fail("seed-ignored", "two seeds (%s, %s) give the same values", key, o.first.c_str());
    sim::state(std::string(key) + std::to_string(len / 6));
  }
}
void run() { if (sim::prop() == "P06") runP06(); else if (sim::prop() == "P07") runP07(); else runP20(); }
void warm() { std::istringstream s("1"); int x; s >> x; std::ostringstream o; o << 1.5; }
} // namespace
int main(int argc, char **argv) { sim::Options o; return sim::simMain(argc, argv, o, warm, run); }
