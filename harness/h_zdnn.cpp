// P15: operations the accelerator runtime splits into tiles and runs on several
// threads, over a simulated accelerator that computes exactly (on 16-bit integers)
// and refuses what a real one refuses. The outcome of each operation is compared
// with the same operation on whole tensors.
#include "simsched.h"
#include "zdnn.h"
#include <cstdlib>
#include <cstring>
#include <memory>
extern "C" {
#include "zdnnx.h"
#include "zdnnx_ops.h"
extern int sim_omp_nested, sim_omp_fewer, sim_omp_limit;
int __asan_region_is_poisoned(void *, size_t);
}
using namespace sim;
typedef uint16_t u16;

// ---- the device -----------------------------------------------------------
namespace {
struct Dev { uint32_t mdis[5]; uint64_t mts; bool telum1; };
Dev dev;
std::string refusal;
uint64_t ceilDiv(uint64_t a, uint64_t b) { return (a + b - 1) / b; }
zdnn_status refuse(zdnn_status s, const char *op, const char *why) { if (refusal.empty()) refusal = std::string(op) + ": " + why; return s; }
struct Acc { // cells of a stickified tensor
  const zdnn_tensor_desc *d; char *b;
  size_t at(uint32_t i4, uint32_t i3, uint32_t i2, uint32_t i1) const {
    if (d->type == ZDNN_BINARY_INT8) {
      if (d->format == ZDNN_FORMAT_4DWEIGHTS) { // two rows interleaved
        uint64_t p = ((uint64_t)(i4 * ceilDiv(d->dim1, 64) + i1 / 64) * d->dim3 + i3) * ceilDiv(ceilDiv(d->dim2, 2), 32) + (i2 / 2) / 32;
        return p * 4096 + (i2 / 2 % 32) * 128 + (i1 % 64) * 2 + i2 % 2;
      }
      uint64_t p = ((uint64_t)(i4 * ceilDiv(d->dim1, 128) + i1 / 128) * d->dim3 + i3) * ceilDiv(d->dim2, 32) + i2 / 32;
      return p * 4096 + (i2 % 32) * 128 + i1 % 128;
    }
    uint64_t p = ((uint64_t)(i4 * ceilDiv(d->dim1, 64) + i1 / 64) * d->dim3 + i3) * ceilDiv(d->dim2, 32) + i2 / 32;
    return p * 4096 + (i2 % 32) * 128 + (i1 % 64) * 2;
  }
  u16 get(uint32_t a, uint32_t c, uint32_t e, uint32_t g) const { size_t o = at(a, c, e, g); return d->type == ZDNN_BINARY_INT8 ? (u16)(int8_t)b[o] : *(u16 *)(b + o); }
  void set(uint32_t a, uint32_t c, uint32_t e, uint32_t g, u16 v) const { size_t o = at(a, c, e, g); if (d->type == ZDNN_BINARY_INT8) b[o] = (char)v; else *(u16 *)(b + o) = v; }
};
Acc acc(const zdnn_ztensor *z) { return {z->transformed_desc, (char *)z->buffer}; }
zdnn_status check(const char *op, const zdnn_ztensor *z, bool in) {
  const zdnn_tensor_desc *d = z->transformed_desc;
  uint32_t s[5] = {0, d->dim1, d->dim2, d->dim3, d->dim4};
  for (int i = 1; i <= 4; i++) {
    if (!s[i]) return refuse(ZDNN_INVALID_SHAPE, op, "a dimension is zero");
    if (s[i] > dev.mdis[i]) return refuse(ZDNN_EXCEEDS_MDIS, op, "a dimension exceeds the maximum of the accelerator");
  }
  if (d->type != ZDNN_DLFLOAT16 && d->type != ZDNN_BINARY_INT8) return refuse(ZDNN_INVALID_TYPE, op, "type");
  if (in && !z->is_transformed) return refuse(ZDNN_INVALID_STATE, op, "an input is not transformed");
  if (!z->buffer || ((uintptr_t)z->buffer & 4095)) return refuse(ZDNN_INVALID_BUFFER, op, "no buffer on a page boundary");
  uint64_t need = zdnn_getsize_ztensor(d);
  if (z->buffer_size < need) return refuse(ZDNN_INVALID_BUFFER, op, "the buffer is too small");
  if (__asan_region_is_poisoned(z->buffer, need)) { Env e; fail("memory-error", "%s: a tensor of %llu bytes lies outside any live buffer", op, (unsigned long long)need); }
  return ZDNN_OK;
}
bool same(const zdnn_ztensor *a, const zdnn_ztensor *b) { auto *x = a->transformed_desc, *y = b->transformed_desc; return x->dim1 == y->dim1 && x->dim2 == y->dim2 && x->dim3 == y->dim3 && x->dim4 == y->dim4; }
// the operations, on 16-bit integers
u16 f2(int op, u16 a, u16 b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a * 3 + b * 5 + (b ? a / b : 7); case 4: return a < b ? a : b; default: return a > b ? a : b; } }
u16 f1(int op, u16 x, double p) {
  switch (op) { case 0: return 3 * x + 1; case 1: return 5 * x + 2; case 2: return 7 * x ^ 3; case 3: return x * x + 4; case 4: return 11 * x + 5; case 5: return 13 * x ^ 77;
    case 6: return p > 0 && x > p ? (u16)p : x; case 7: return x * 17 + (u16)(p * 4); default: return x + 9 * (u16)(p * 2); }
}
u16 softcell(int act, u16 x, u16 sum) { return act ? x * 3 - sum : x + sum * 7; }
u16 mmcell(int op, u16 s, u16 c) { switch (op) { case 0: return s + c; case 1: return s > c; case 2: return s >= c; case 3: return s == c; case 4: return s != c; case 5: return s <= c; default: return s < c; } }
// a device operation takes its time: it reads, then writes, while others go on
struct Busy { Env e; Busy(const char *op) { yieldPoint(op); } };
zdnn_status outcome(const char *op, bool &write) {
  write = true;
  { Sut s; if (fault("device-error")) { write = false; return ZDNN_UNAVAILABLE_FUNCTION; } if (fault("range-warning")) return ZDNN_ELEMENT_RANGE_VIOLATION; }
  return ZDNN_OK;
}
template <class F> void write(const zdnn_ztensor *y, F f) {
  Acc a = acc(y); auto *d = a.d;
  std::vector<u16> v; v.reserve((size_t)d->dim4 * d->dim3 * d->dim2 * d->dim1);
  for (uint32_t i = 0; i < d->dim4; i++) for (uint32_t j = 0; j < d->dim3; j++) for (uint32_t k = 0; k < d->dim2; k++) for (uint32_t l = 0; l < d->dim1; l++) v.push_back(f(i, j, k, l));
  yieldPoint("device"); size_t n = 0;
  for (uint32_t i = 0; i < d->dim4; i++) { for (uint32_t j = 0; j < d->dim3; j++) for (uint32_t k = 0; k < d->dim2; k++) for (uint32_t l = 0; l < d->dim1; l++) a.set(i, j, k, l, v[n++]); if (i < 3) yieldPoint("device"); }
  // padding of the last sticks is undefined
}
unsigned deviceOps;
zdnn_status binary(const char *n, int op, const zdnn_ztensor *a, const zdnn_ztensor *b, zdnn_ztensor *y) {
  Busy u(n); deviceOps++; zdnn_status s; if ((s = check(n, a, true)) || (s = check(n, b, true)) || (s = check(n, y, false))) return s;
  if (!same(a, b) || !same(a, y)) return refuse(ZDNN_INVALID_SHAPE, n, "shapes differ");
  bool w; s = outcome(n, w); if (!w) return s; Acc x = acc(a), z = acc(b);
  write(y, [&](uint32_t i, uint32_t j, uint32_t k, uint32_t l) { return f2(op, x.get(i, j, k, l), z.get(i, j, k, l)); }); y->is_transformed = true; return s;
}
zdnn_status unary(const char *n, int op, const zdnn_ztensor *a, double p, zdnn_ztensor *y) {
  Busy u(n); deviceOps++; zdnn_status s; if ((s = check(n, a, true)) || (s = check(n, y, false))) return s;
  if (!same(a, y)) return refuse(ZDNN_INVALID_SHAPE, n, "shapes differ");
  bool w; s = outcome(n, w); if (!w) return s; Acc x = acc(a);
  write(y, [&](uint32_t i, uint32_t j, uint32_t k, uint32_t l) { return f1(op, x.get(i, j, k, l), p); }); y->is_transformed = true; return s;
}
zdnn_status matmul(const char *n, const zdnn_ztensor *a, const zdnn_ztensor *b, const zdnn_ztensor *c, bool ta, bool tb, bool bcast, int op, zdnn_ztensor *y) {
  Busy u(n); deviceOps++; zdnn_status s; if ((s = check(n, a, true)) || (s = check(n, b, true)) || (s = check(n, c, true)) || (s = check(n, y, false))) return s;
  auto *A = a->transformed_desc, *B = b->transformed_desc, *C = c->transformed_desc, *Y = y->transformed_desc;
  uint32_t M = ta ? A->dim1 : A->dim2, K = ta ? A->dim2 : A->dim1, K2 = tb ? B->dim1 : B->dim2, N = tb ? B->dim2 : B->dim1, S = A->dim4;
  bool bst = B->dim4 == S; // transpose operation: second operand stacked or broadcast
  if (K != K2) return refuse(ZDNN_INVALID_SHAPE, n, "inner dimensions differ");
  if (Y->dim4 != S || Y->dim2 != M || Y->dim1 != N || Y->dim3 != 1) return refuse(ZDNN_INVALID_SHAPE, n, "shape of the output");
  if (C->dim1 != N || C->dim2 != 1 || C->dim3 != 1) return refuse(ZDNN_INVALID_SHAPE, n, "shape of the bias");
  if (bcast ? B->dim4 != 1 || C->dim4 != 1 : !bst || C->dim4 != S) return refuse(ZDNN_INVALID_SHAPE, n, "numbers of stacked matrices");
  bool w; s = outcome(n, w); if (!w) return s; Acc x = acc(a), z = acc(b), q = acc(c);
  std::vector<u16> v((size_t)S * M * N);
  for (uint32_t i = 0; i < S; i++) for (uint32_t k = 0; k < M; k++) for (uint32_t p = 0; p < K; p++) { u16 t = ta ? x.get(i, 0, p, k) : x.get(i, 0, k, p);
    for (uint32_t l = 0; l < N; l++) v[((size_t)i * M + k) * N + l] += t * (tb ? z.get(bcast ? 0 : i, 0, l, p) : z.get(bcast ? 0 : i, 0, p, l)); }
  write(y, [&](uint32_t i, uint32_t, uint32_t k, uint32_t l) { return mmcell(op, v[((size_t)i * M + k) * N + l], q.get(bcast ? 0 : i, 0, 0, l)); }); y->is_transformed = true; return s;
}
} // namespace
extern "C" {
void zdnn_init(void) {}
bool zdnn_is_nnpa_installed(void) { return true; }
bool zdnn_is_nnpa_parmblk_fmt_installed(int, ...) { return !dev.telum1; }
uint32_t zdnn_get_nnpa_max_dim_idx_size(void) { return dev.mdis[1]; }
uint32_t zdnn_get_max_for_dim(uint8_t d) { return dev.mdis[d]; }
uint64_t zdnn_get_nnpa_max_tensor_size(void) { return dev.mts; }
const char *zdnn_get_status_message(zdnn_status) { return "simulated"; }
zdnn_status zdnn_generate_transformed_desc(const zdnn_tensor_desc *p, zdnn_tensor_desc *t) {
  uint32_t a = 1, b = 1, c = 1, d = p->dim1;
  switch (p->layout) {
  case ZDNN_1D: break;
  case ZDNN_2D: c = p->dim2; break;
  case ZDNN_2DS: a = p->dim2; break;
  case ZDNN_3D: b = p->dim3; c = p->dim2; break;
  case ZDNN_3DS: a = p->dim3; c = p->dim2; break;
  case ZDNN_4D: case ZDNN_NHWC: a = p->dim4; b = p->dim3; c = p->dim2; break;
  case ZDNN_NCHW: a = p->dim4; b = p->dim2; c = p->dim1; d = p->dim3; break;
  default: return ZDNN_INVALID_LAYOUT;
  }
  t->layout = p->layout == ZDNN_NCHW ? ZDNN_NHWC : p->layout == ZDNN_NHWC ? ZDNN_NHWC : ZDNN_4D; t->format = ZDNN_FORMAT_4DFEATURE; t->type = ZDNN_DLFLOAT16; t->dim4 = a; t->dim3 = b; t->dim2 = c; t->dim1 = d; return ZDNN_OK;
}
zdnn_status zdnn_generate_quantized_transformed_desc(const zdnn_tensor_desc *p, zdnn_quantized_transform_types ty, zdnn_tensor_desc *t) {
  zdnn_status s = zdnn_generate_transformed_desc(p, t); if (s) return s;
  if (ty != QUANTIZED_DLFLOAT16) t->type = ZDNN_BINARY_INT8;
  if (ty == QUANTIZED_WEIGHTS_INT8) t->format = ZDNN_FORMAT_4DWEIGHTS;
  return ZDNN_OK;
}
uint64_t zdnn_getsize_ztensor(const zdnn_tensor_desc *t) {
  uint64_t cells = 64, rows = t->dim2;
  if (t->type == ZDNN_BINARY_INT8) { if (t->format == ZDNN_FORMAT_4DWEIGHTS) rows = ceilDiv(rows, 2); else cells = 128; }
  return (uint64_t)t->dim4 * t->dim3 * ceilDiv(t->dim1, cells) * ceilDiv(rows, 32) * 4096;
}
zdnn_status zdnn_free_ztensor_buffer(const zdnn_ztensor *z) { if (!z->buffer) return ZDNN_INVALID_BUFFER; free(((void **)z->buffer)[-1]); return ZDNN_OK; }
#define B_(n, k) zdnn_status zdnn_##n(const zdnn_ztensor *a, const zdnn_ztensor *b, zdnn_ztensor *y) { return binary(#n, k, a, b, y); }
#define U_(n, k) zdnn_status zdnn_##n(const zdnn_ztensor *x, zdnn_ztensor *y) { return unary(#n, k, x, 0, y); }
B_(add, 0) B_(sub, 1) B_(mul, 2) B_(div, 3) B_(min, 4) B_(max, 5)
U_(exp, 0) U_(log, 1) U_(sigmoid, 2) U_(tanh, 3) U_(gelu, 4) U_(sqrt, 5)
zdnn_status zdnn_relu(const zdnn_ztensor *x, const void *clip, zdnn_ztensor *y) { return unary("relu", 6, x, clip ? *(const float *)clip : 0, y); }
zdnn_status zdnn_leaky_relu(const zdnn_ztensor *x, const void *clip, float adj, zdnn_ztensor *y) { return unary("leaky_relu", 8, x, adj, y); }
zdnn_status zdnn_invsqrt(const zdnn_ztensor *x, float eps, zdnn_ztensor *y) { return unary("invsqrt", 7, x, eps, y); }
zdnn_status zdnn_softmax(const zdnn_ztensor *x, void *save, zdnn_softmax_act act, zdnn_ztensor *y) {
  Busy u("softmax"); deviceOps++; zdnn_status s; if ((s = check("softmax", x, true)) || (s = check("softmax", y, false))) return s;
  if (!same(x, y)) return refuse(ZDNN_INVALID_SHAPE, "softmax", "shapes differ");
  bool w; s = outcome("softmax", w); if (!w) return s; Acc a = acc(x);
  uint32_t li = ~0u, lk = 0, lj = 0; u16 sum = 0;
  write(y, [&](uint32_t i, uint32_t j, uint32_t k, uint32_t l) {
    if (i != li || k != lk || j != lj) { li = i; lk = k; lj = j; sum = 0; for (uint32_t m = 0; m < a.d->dim1; m++) sum += a.get(i, j, k, m) * (m + 1); }
    return softcell(act, a.get(i, j, k, l), sum); });
  y->is_transformed = true; return s;
}
zdnn_status zdnn_reduce(const zdnn_ztensor *, void *, zdnn_reduce_ops, zdnn_ztensor *) { return refuse(ZDNN_UNAVAILABLE_FUNCTION, "reduce", "not simulated"); }
zdnn_status zdnn_matmul_op(const zdnn_ztensor *a, const zdnn_ztensor *b, const zdnn_ztensor *c, zdnn_matmul_ops op, zdnn_ztensor *y) { return matmul("matmul", a, b, c, false, false, false, op, y); }
zdnn_status zdnn_matmul_bcast_op(const zdnn_ztensor *a, const zdnn_ztensor *b, const zdnn_ztensor *c, zdnn_matmul_bcast_ops op, zdnn_ztensor *y) { return matmul("matmul_bcast", a, b, c, false, false, true, op, y); }
zdnn_status zdnn_matmul_transpose_op(const zdnn_ztensor *a, const zdnn_ztensor *b, const zdnn_ztensor *c, bool ta, bool tb, zdnn_matmul_ops op, zdnn_ztensor *y) {
  bool bc = a->transformed_desc->dim4 != b->transformed_desc->dim4; return matmul("matmul_transpose", a, b, c, ta, tb, bc, op, y); }
zdnn_status zdnn_quantized_matmul_op(const zdnn_ztensor *a, const zdnn_ztensor *b, const zdnn_ztensor *c, zdnn_matmul_ops op, int8_t, int8_t, bool, bool, bool, void *, zdnn_ztensor *y) {
  bool bc = a->transformed_desc->dim4 != b->transformed_desc->dim4;
  if (b->transformed_desc->type != ZDNN_BINARY_INT8 || b->transformed_desc->format != ZDNN_FORMAT_4DWEIGHTS) { Env e; return refuse(ZDNN_INVALID_TYPE, "quantized_matmul", "the weights are not quantized"); }
  u16 k = (u16)(int)(a->rec_scale * 3 + b->offset * 5 + y->rec_scale); // the quantization parameters take part
  if (k != (u16)(int)(2 * 3 + 4 * 5 + 6)) { Env e; return refuse(ZDNN_INVALID_STATE, "quantized_matmul", "quantization parameters"); }
  return matmul("quantized_matmul", a, b, c, false, false, bc, op, y);
}
void zdnnx_init();
}

// ---- tensors and the reference --------------------------------------------
namespace {
struct Ten {
  uint32_t s[4]; std::vector<u16> v; zdnn_tensor_desc pre, tr, pre0, tr0; zdnn_ztensor z; char *buf = nullptr; uint64_t size = 0, h = 0; bool i8 = false;
  size_t ix(uint32_t i, uint32_t j, uint32_t k, uint32_t l) const { return (((size_t)i * s[1] + j) * s[2] + k) * s[3] + l; }
  ~Ten() { free(buf); }
};
typedef std::shared_ptr<Ten> P;
uint64_t salt;
P make(zdnn_data_layouts lay, uint32_t e4, uint32_t e3, uint32_t e2, uint32_t e1, bool input, int q = 0) {
  P t = std::make_shared<Ten>(); t->s[0] = e4; t->s[1] = e3; t->s[2] = e2; t->s[3] = e1;
  memset(&t->pre, 0, sizeof t->pre); memset(&t->z, 0, sizeof t->z); t->pre.layout = lay; t->pre.type = q >= 2 ? INT8 : FP32; t->pre.format = ZDNN_FORMAT_4DFEATURE;
  uint32_t d[4] = {1, 1, 1, e1};
  switch (lay) {
  case ZDNN_1D: break; case ZDNN_2D: d[2] = e2; break; case ZDNN_2DS: d[2] = e4; break; case ZDNN_3D: d[1] = e3; d[2] = e2; break; case ZDNN_3DS: d[1] = e4; d[2] = e2; break;
  case ZDNN_NCHW: d[0] = e4; d[1] = e1; d[2] = e3; d[3] = e2; break; default: d[0] = e4; d[1] = e3; d[2] = e2;
  }
  t->pre.dim4 = d[0]; t->pre.dim3 = d[1]; t->pre.dim2 = d[2]; t->pre.dim1 = d[3];
  zdnn_status st = q ? zdnn_generate_quantized_transformed_desc(&t->pre, (zdnn_quantized_transform_types)(q - 1), &t->tr) : zdnn_generate_transformed_desc(&t->pre, &t->tr);
  if (st || t->tr.dim4 != e4 || t->tr.dim3 != e3 || t->tr.dim2 != e2 || t->tr.dim1 != e1) fail("harness", "descriptor");
  t->size = zdnn_getsize_ztensor(&t->tr); t->buf = (char *)aligned_alloc(4096, t->size); t->i8 = q >= 2;
  uint64_t r = ++salt * 0x9e3779b97f4a7c15ull;
  for (size_t i = 0; i + 8 <= t->size; i += 8) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; memcpy(t->buf + i, &r, 8); } // padding holds anything
  t->z.pre_transformed_desc = &t->pre; t->z.transformed_desc = &t->tr; t->z.buffer = t->buf; t->z.buffer_size = t->size; t->z.is_transformed = input;
  t->v.resize((size_t)e4 * e3 * e2 * e1);
  if (input) { Acc a = acc(&t->z); for (uint32_t i = 0; i < e4; i++) for (uint32_t j = 0; j < e3; j++) for (uint32_t k = 0; k < e2; k++) for (uint32_t l = 0; l < e1; l++) t->v[t->ix(i, j, k, l)] = a.get(i, j, k, l); }
  t->pre0 = t->pre; t->tr0 = t->tr; if (input) t->h = hashBytes(t->buf, t->size);
  return t;
}
bool eq(const zdnn_tensor_desc &a, const zdnn_tensor_desc &b) { return !memcmp(&a, &b, sizeof a); }
std::string sh(const Ten &t) { char b[80]; snprintf(b, sizeof b, "(%u,%u,%u,%u)", t.s[0], t.s[1], t.s[2], t.s[3]); return b; }
enum OpK { BIN, UN, SOFT, MM, MMB, MMT, QMM, TILES };
struct Call {
  OpK k; int op = 0, ta = 0, tb = 0; float p = 0; bool hasP = false; P a, b, c, y; bool mayRefuse = false; std::string name;
  zdnn_status st = 0; uint32_t ts[4] = {0, 0, 0, 0}; unsigned ext = 0, workers = 1;
};
uint32_t dim(uint32_t cap, uint32_t hi, unsigned grain) { // sizes around what matters
  uint32_t r;
  switch (choose(8)) {
  case 0: r = 1; break; case 1: r = 2; break; case 2: r = range(1, 5); break; case 3: r = range(1, 3) * grain; break; case 4: r = range(1, 3) * grain + range(1, 3) - 2; break;
  case 5: r = cap; break; case 6: r = cap + range(1, grain); break; default: r = cap * 2 + range(0, grain);
  }
  if (!r) r = 1; return r > hi ? hi : r;
}
uint64_t pages(uint64_t a, uint64_t b, uint64_t c, uint64_t d) { return a * b * ceilDiv(c, 32) * ceilDiv(d, 64); }
struct Scale { bool full; unsigned threads; bool big; };
std::vector<P> pool; // operands several tasks share
Call gen(const Scale &sc) {
  Call c; unsigned w = choose(11); bool tl = w == 10 && !sc.full && !sc.big; if (w == 10) w = 2; c.k = w < 2 ? BIN : w < 4 ? UN : w < 5 ? SOFT : w < 7 ? MM : w < 8 ? MMB : w < 9 ? MMT : QMM;
  uint32_t m4 = dev.mdis[4], m3 = dev.mdis[3], m2 = dev.mdis[2], m1 = dev.mdis[1]; bool par = sc.threads != 1; uint64_t cap = 160;
  if (c.k <= SOFT) {
    zdnn_data_layouts lay = c.k == SOFT ? ZDNN_3DS : (zdnn_data_layouts[]){ZDNN_4D, ZDNN_3DS, ZDNN_NHWC, ZDNN_2D, ZDNN_3D, ZDNN_1D, ZDNN_2DS, ZDNN_NCHW}[choose(8)];
    uint32_t e4 = dim(m4 > 64 ? 8 : m4, 40, 2), e3 = dim(m3 > 64 ? 8 : m3, 24, 2), e2 = dim(m2 > 1000 ? 64 : m2, 700, 32), e1 = dim(m1 > 1000 ? 128 : m1, 900, 64);
    if (sc.big) { // at least three megabytes: 768 pages
      unsigned h = choose(6); e4 = 1 + choose(7); e3 = 1 + choose(4); e2 = h & 1 ? 32 * range(1, 6) : range(1, 200); e1 = h < 4 ? 64 * range(1, 6) : range(1, 400);
      if (lay == ZDNN_1D || lay == ZDNN_2D || lay == ZDNN_2DS) lay = ZDNN_4D;
      if (c.k == SOFT || lay == ZDNN_3DS) { e3 = 1; }
      if (lay == ZDNN_3D) e4 = 1;
      uint64_t pp = pages(e4, e3, e2, e1); uint32_t f = ceilDiv(760 + choose(30), pp); if (lay == ZDNN_3D) e3 *= f; else e4 *= f;
      cap = 4000;
    }
    if (lay == ZDNN_1D) e4 = e3 = e2 = 1; if (lay == ZDNN_2D) e4 = e3 = 1; if (lay == ZDNN_2DS) e3 = e2 = 1; if (lay == ZDNN_3D) e4 = 1; if (lay == ZDNN_3DS) e3 = 1;
    if (c.k == SOFT && e1 > m1) e1 = m1; // rows are never split
    while (pages(e4, e3, e2, e1) > cap) { if (e4 > 1 && (e4 > 4 || e2 <= 32)) e4 = (e4 + 1) / 2; else if (e3 > 1) e3 = (e3 + 1) / 2; else if (e2 > 32) e2 /= 2; else e1 /= 2; }
    c.a = make(lay, e4, e3, e2, e1, true);
    if (c.k == BIN) { c.op = choose(6); c.b = choose(8) == 0 ? c.a : make(lay, e4, e3, e2, e1, true); c.name = (const char *[]){"add", "sub", "mul", "div", "min", "max"}[c.op]; }
    else if (c.k == UN) { c.op = choose(9); c.hasP = c.op == 7 || c.op == 8 || chance(1, 2); c.p = c.hasP ? range(1, 30000) : 0; if (c.op == 7) c.p = 0.25f * range(1, 100); c.name = (const char *[]){"exp", "log", "sigmoid", "tanh", "gelu", "sqrt", "relu", "invsqrt", "leaky_relu"}[c.op];
      if (c.op == 8 && (e4 > m4 || e3 > m3 || e2 > m2 || e1 > m1)) c.mayRefuse = true; }
    else { c.op = choose(2); c.name = "softmax"; }
    c.y = make(lay, e4, e3, e2, e1, false);
    if (tl) { c.k = TILES; c.op = 0; c.hasP = false; c.p = 0; c.mayRefuse = false; c.name = "tiles"; c.ext = choose(2); c.workers = c.ext ? 1 : 1 + choose(3);
      uint32_t s[4] = {e4, e3, e2, e1}; for (int i = 0; i < 4; i++) { uint32_t m = dev.mdis[4 - i]; c.ts[i] = chance(1, 3) && s[i] <= m ? 0 : range(1, s[i]); while (c.ts[i] > m) c.ts[i] = (c.ts[i] + 1) / 2; }
      uint64_t n = 1; for (int i = 0; i < 4; i++) n *= c.ts[i] ? ceilDiv(s[i], c.ts[i]) : 1; if (n > 60) for (int i = 0; i < 4; i++) if (s[i] <= dev.mdis[4 - i]) c.ts[i] = 0; }
    return c;
  }
  bool st, bc = false; uint32_t S = 1, M, K, N;
  c.op = choose(7); c.k == QMM ? (void)(c.op = 0) : (void)0;
  st = chance(1, 2); if (c.k == MMB) { st = false; bc = true; } if (c.k == MMT) { c.ta = choose(2); c.tb = c.ta ? choose(2) : 1; bc = !st && chance(1, 2); } if (c.k == QMM) bc = !st && chance(1, 2);
  if (st || bc) S = chance(1, 3) ? 1 : dim(m4 > 64 ? 4 : m4, 12, 2);
  K = range(1, 3); if (chance(1, 3)) K = chance(1, 2) ? range(30, 70) : range(1, 140);
  if (sc.full) {
    S = (st || bc) ? range(1, 2) : 1;
    if (chance(1, 2)) { M = 32768 + range(1, 9000); N = 1 + choose(3) * 64 + choose(3); K = range(1, 2); } else { N = 32768 + range(1, 9000); M = range(1, 3); K = range(1, 2); }
    if (c.k == QMM && S > 1) S = 1;
    c.ta = c.tb = 0; if (c.k == MMT) c.ta = 1;
  } else {
    M = dim(m2 > 1000 ? 64 : m2, 300, 32); N = dim(m1 > 1000 ? 128 : m1, 700, 64);
    if (par || c.k == QMM) { if (M > m2) M = m2; if (N > m1) N = m1; } // split by thousands only: exercised at full scale
    if (par && c.k == MMT) { uint32_t q = m1 < m2 ? m1 : m2; if (c.ta && M > q) M = q; if (c.tb && N > q) N = q; if (K > q) K = q; if (S > m4 && (c.ta || c.tb)) S = m4; }
  }
  if (K > m1) K = m1; if (K > m2) K = m2;
  while ((pages(S, 1, M, K) + pages(S, 1, K, N) + pages(S, 1, M, N) > (sc.full ? 6000 : 300) || (uint64_t)S * M * N * K > 3000000) && !sc.full) { if (S > 2) S = (S + 1) / 2; else if (K > 2) K /= 2; else if (M > N) M /= 2; else N /= 2; }
  uint32_t lim = dev.mdis[1] < dev.mdis[2] ? dev.mdis[1] : dev.mdis[2];
  if (K > lim) c.mayRefuse = true;
  if (c.ta && (M > m1 || K > m2 || M > m2)) c.mayRefuse = true; // a transposed operand is not split along M
  if (c.tb && (N > m2 || K > m1 || N > m1)) c.mayRefuse = true;
  if (c.k == QMM && (M > m2 || N > m1 || S > m4)) c.mayRefuse = true;
  int qa = 0, qb = 0, qc = 0, qy = 0;
  if (c.k == QMM) { qa = 1 + choose(2); qb = 3; qc = 1; qy = 1; }
  zdnn_data_layouts la = st || bc ? ZDNN_3DS : ZDNN_2D, lb = st ? ZDNN_3DS : ZDNN_2D, lc = st ? ZDNN_2DS : ZDNN_1D;
  c.a = c.ta ? make(la, S, 1, K, M, true, qa) : make(la, S, 1, M, K, true, qa);
  uint32_t SB = st ? S : 1;
  // constants (weights, bias) are shared between the threads that run a model
  P sb, scc; for (P &q : pool) { if (!qb && q->pre.layout == lb && q->s[0] == SB && q->s[1] == 1 && (c.tb ? q->s[3] == K : q->s[2] == K) && !q->i8) sb = q; }
  if (sb && chance(1, 2)) { uint32_t n = c.tb ? sb->s[2] : sb->s[3]; if (n == N) c.b = sb; }
  if (!c.b) { c.b = c.tb ? make(lb, SB, 1, N, K, true, qb) : make(lb, SB, 1, K, N, true, qb); if (!qb) pool.push_back(c.b); }
  c.c = make(lc, SB, 1, 1, N, true, qc);
  c.y = make(la, S, 1, M, N, false, qy);
  if (c.k == QMM) { c.a->z.rec_scale = 2; c.b->z.offset = 4; c.y->z.rec_scale = 6; }
  c.name = c.k == MM ? "matmul" : c.k == MMB ? "matmul_bcast" : c.k == MMT ? "matmul_transpose" : "quantized_matmul";
  return c;
}
// an operation written with the tile primitives, for any tile sizes
zdnn_status tiles(Call &c) {
  struct Sh { zdnnx_split_info sx, sy; uint32_t n[4]; zdnn_status st = 0; } h; char *bx = nullptr, *by = nullptr; Sut su;
  zdnnx_prepare_split_info(&h.sx, &c.a->z, c.ts[0], c.ts[1], c.ts[2], c.ts[3], "x"); zdnnx_prepare_split_info(&h.sy, &c.y->z, c.ts[0], c.ts[1], c.ts[2], c.ts[3], "y");
  for (int i = 0; i < 4; i++) h.n[i] = zdnnx_get_num_tiles(&h.sx, (zdnnx_axis)i);
  if (c.ext) { if (zdnnx_has_no_buffer_reuse(&h.sx)) bx = (char *)zdnnx_alloc_buffer(&h.sx); if (zdnnx_has_no_buffer_reuse(&h.sy)) by = (char *)zdnnx_alloc_buffer(&h.sy); }
  auto work = [&](unsigned w) { Sut s2; unsigned k = 0;
    for (uint32_t a = 0; a < h.n[0]; a++) for (uint32_t b = 0; b < h.n[1]; b++) for (uint32_t d = 0; d < h.n[2]; d++) for (uint32_t e = 0; e < h.n[3]; e++) {
      if (k++ % c.workers != w) continue;
      zdnnx_tile tx, ty; zdnnx_set_tile(&h.sx, &tx, bx, a, b, d, e); zdnnx_set_tile(&h.sy, &ty, by, a, b, d, e);
      zdnnx_copy_data_to_tile(&tx); zdnn_status t = zdnn_exp(&tx.data, &ty.data); if (t > h.st) h.st = t;
      zdnnx_copy_data_to_full(&ty); zdnnx_free_tile_buffer(&tx); zdnnx_free_tile_buffer(&ty);
    } };
  std::vector<int> t; { Env e; for (unsigned w = 1; w < c.workers; w++) t.push_back(taskSpawn(("tile" + std::to_string(w)).c_str(), [&, w] { work(w); })); }
  work(0); { Env e; for (int i : t) taskJoin(i); }
  zdnnx_free_buffer(bx); zdnnx_free_buffer(by); return h.st;
}
zdnn_status perform(Call &c) {
  if (c.k == TILES) return tiles(c);
  zdnn_ztensor *a = &c.a->z, *b = c.b ? &c.b->z : nullptr, *k = c.c ? &c.c->z : nullptr, *y = &c.y->z; Sut s;
  switch (c.k) {
  case BIN: switch (c.op) { case 0: return zdnnx_add(a, b, y); case 1: return zdnnx_sub(a, b, y); case 2: return zdnnx_mul(a, b, y); case 3: return zdnnx_div(a, b, y); case 4: return zdnnx_min(a, b, y); default: return zdnnx_max(a, b, y); }
  case UN: switch (c.op) { case 0: return zdnnx_exp(a, y); case 1: return zdnnx_log(a, y); case 2: return zdnnx_sigmoid(a, y); case 3: return zdnnx_tanh(a, y); case 4: return zdnnx_gelu(a, y); case 5: return zdnnx_sqrt(a, y);
    case 6: return zdnnx_relu(a, c.hasP ? &c.p : nullptr, y); case 7: return zdnnx_invsqrt(a, c.p, y); default: return zdnnx_leaky_relu(a, nullptr, c.p, y); }
  case SOFT: return zdnnx_softmax(a, nullptr, c.op ? SOFTMAX_ACT_LOG : SOFTMAX_ACT_NONE, y);
  case MM: return zdnnx_matmul_op(a, b, k, c.op, y);
  case MMB: return zdnnx_matmul_bcast_op(a, b, k, c.op, y);
  case MMT: return zdnnx_matmul_transpose_op(a, b, k, c.ta, c.tb, c.op, y);
  default: return zdnnx_quantized_matmul_op(a, b, k, MATMUL_OP_ADDITION, -128, 127, true, true, true, nullptr, y);
  }
}
void reference(Call &c) {
  Ten &a = *c.a, &y = *c.y; size_t n = y.v.size();
  if (c.k == BIN) for (size_t i = 0; i < n; i++) y.v[i] = f2(c.op, a.v[i], c.b->v[i]);
  else if (c.k == UN || c.k == TILES) for (size_t i = 0; i < n; i++) y.v[i] = f1(c.op, a.v[i], c.p);
  else if (c.k == SOFT) for (size_t r = 0; r < n; r += a.s[3]) { u16 s = 0; for (uint32_t m = 0; m < a.s[3]; m++) s += a.v[r + m] * (m + 1); for (uint32_t m = 0; m < a.s[3]; m++) y.v[r + m] = softcell(c.op, a.v[r + m], s); }
  else {
    uint32_t S = y.s[0], M = y.s[2], N = y.s[3], K = c.ta ? a.s[2] : a.s[3]; bool one = c.b->s[0] == 1;
    std::vector<u16> v(N);
    for (uint32_t s = 0; s < S; s++) for (uint32_t m = 0; m < M; m++) {
      std::fill(v.begin(), v.end(), 0); uint32_t t = one ? 0 : s;
      for (uint32_t p = 0; p < K; p++) { u16 x = c.ta ? a.v[a.ix(s, 0, p, m)] : a.v[a.ix(s, 0, m, p)]; for (uint32_t l = 0; l < N; l++) v[l] += x * (c.tb ? c.b->v[c.b->ix(t, 0, l, p)] : c.b->v[c.b->ix(t, 0, p, l)]); }
      for (uint32_t l = 0; l < N; l++) y.v[y.ix(s, 0, m, l)] = mmcell(c.op, v[l], c.c->v[c.c->ix(t, 0, 0, l)]);
    }
  }
}
void unchanged(const char *what, Call &c, Ten &t, bool input) {
  if (!eq(t.pre, t.pre0) || !eq(t.tr, t.tr0)) fail("descriptor-changed", "%s %s changed the descriptors of its %s", c.name.c_str(), sh(t).c_str(), what);
  if (t.z.buffer != t.buf || t.z.buffer_size != t.size || t.z.pre_transformed_desc != &t.pre || t.z.transformed_desc != &t.tr) fail("descriptor-changed", "%s %s changed the tensor of its %s", c.name.c_str(), sh(t).c_str(), what);
  if (input && hashBytes(t.buf, t.size) != t.h) fail("input-changed", "%s %s changed its %s", c.name.c_str(), sh(t).c_str(), what);
}
void judge(Call &c, bool alone, unsigned errs, unsigned warns, const std::string &why) {
  unchanged("first input", c, *c.a, true); if (c.b) unchanged("second input", c, *c.b, true); if (c.c) unchanged("bias", c, *c.c, true); unchanged("output", c, *c.y, false);
  std::string ops = c.name + " " + sh(*c.a) + (c.b ? " " + sh(*c.b) : "") + (c.ta ? " first transposed" : "") + (c.tb ? " second transposed" : "");
  if (c.st == ZDNN_OK || c.st == ZDNN_ELEMENT_RANGE_VIOLATION) {
    reference(c); Acc g = acc(&c.y->z); Ten &y = *c.y; size_t bad = 0; char first[80] = "";
    for (uint32_t i = 0; i < y.s[0]; i++) for (uint32_t j = 0; j < y.s[1]; j++) for (uint32_t k = 0; k < y.s[2]; k++) for (uint32_t l = 0; l < y.s[3]; l++)
      if (g.get(i, j, k, l) != y.v[y.ix(i, j, k, l)] && !bad++) snprintf(first, sizeof first, "first (%u,%u,%u,%u)", i, j, k, l);
    if (bad) fail(c.st ? "wrong-after-warning" : "wrong-result", "%s: %zu of %zu elements differ from the operation on whole tensors, %s%s%s", ops.c_str(), bad, y.v.size(), first, why.empty() ? "" : "; the accelerator refused a tile: ", why.c_str());
    if (!c.st && alone && errs) fail("failure-not-reported", "%s reports success though the accelerator failed", ops.c_str());
    if (!c.st && alone && warns) fail("warning-not-reported", "%s reports success though the accelerator warned of a range violation", ops.c_str());
    if (!c.y->z.is_transformed && 0) fail("state", "output");
    probe(c.k == TILES ? "own tiles compared" : c.k <= SOFT ? "element-wise compared" : "matrix product compared");
  } else {
    if (alone && !errs && !warns && !c.mayRefuse) fail("refused", "%s fails with %x; the operation on whole tensors does not%s%s", ops.c_str(), c.st, why.empty() ? "" : ": ", why.c_str());
    probe("failure reported");
  }
}
} // namespace

static void run() {
  Scale sc; sc.full = chance(1, 150); sc.big = !sc.full && chance(1, 20);
  unsigned users = sc.full ? 1 : 1 + (chance(1, 3) ? 1 + choose(2) : 0);
  sc.threads = 1 + choose(6); if (sc.big && sc.threads == 1) sc.threads = 2;
  if (sc.full) { sc.threads = 2 + choose(3); dev.telum1 = chance(3, 4); for (int i = 1; i < 5; i++) dev.mdis[i] = 32768; if (!dev.telum1) dev.telum1 = true; }
  else {
    dev.telum1 = false;
    dev.mdis[4] = 2u << choose(3); dev.mdis[3] = 2u << choose(3); dev.mdis[2] = 32u << choose(3); dev.mdis[1] = 64u << choose(3);
    if (chance(1, 3) || sc.big) dev.mdis[4] = dev.mdis[3] = 32768;
    if (chance(1, 6)) { dev.mdis[2] = 1048576; dev.mdis[1] = 2097152; }
  }
  dev.mts = 1ull << 32;
  setenv("OM_NUM_ZAIU_THREADS", std::to_string(sc.threads).c_str(), 1);
  if (sc.threads == 1 && chance(1, 8)) setenv("OM_NUM_ZAIU_THREADS", (const char *[]){"0", "-3", "", "two"}[choose(4)], 1); // not a positive number: one thread
  else if (chance(1, 5)) { unsetenv("OM_NUM_ZAIU_THREADS"); setenv("OMP_NUM_THREADS", std::to_string(sc.threads).c_str(), 1); }
  uint64_t mts = 0;
  if (!sc.full && chance(1, 4)) { mts = 1ull << range(9, 16); char b[40]; snprintf(b, sizeof b, "%.17g", mts / 1048576.0); setenv("ZDNNX_MAX_TILE_SIZE_IN_MB", b, 1); }
  else if (chance(1, 60)) setenv("ZDNNX_MAX_TILE_SIZE_IN_MB", (const char *[]){"0", "-1", "0.0000001", "1e9", "x", "nan"}[choose(6)], 1);
  sim_omp_nested = choose(2); sim_omp_fewer = 1; sim_omp_limit = chance(1, 5) ? 1 + choose(3) : 16;
  unsigned kinds = choose(8);
  faultKinds(kinds == 1 ? std::vector<const char *>{"device-error", "fewer-threads"} : kinds == 2 ? std::vector<const char *>{"range-warning", "fewer-threads"} : std::vector<const char *>{"fewer-threads"});
  ev("threads %u mdis %u %u %u %u tile %llu nested %d users %u", sc.threads, dev.mdis[4], dev.mdis[3], dev.mdis[2], dev.mdis[1], (unsigned long long)mts, sim_omp_nested, users);
  std::vector<std::vector<Call>> calls(users);
  for (unsigned u = 0; u < users; u++) { unsigned n = sc.full || sc.big ? 1 : 1 + choose(3); for (unsigned i = 0; i < n; i++) {
    if (i && chance(1, 3) && calls[u][i - 1].k <= SOFT) { } // (operands of a following call are its own)
    calls[u].push_back(gen(sc)); Call &c = calls[u].back();
    if (u && c.k == BIN && !sc.full) for (auto &d : calls[0]) if (d.k <= UN && d.a->s[0] == c.a->s[0] && d.a->s[1] == c.a->s[1] && d.a->s[2] == c.a->s[2] && d.a->s[3] == c.a->s[3] && d.a->pre.layout == c.a->pre.layout) c.b = d.a;
    if (u && sc.big && calls[0].size() && chance(1, 2) && calls[0][0].k <= UN) { Call &d = calls[0][0]; c = Call(); c.k = BIN; c.op = choose(6); c.name = "binary"; c.a = d.a; c.b = chance(1, 2) ? d.a : make(d.a->pre.layout, d.a->s[0], d.a->s[1], d.a->s[2], d.a->s[3], true); c.y = make(d.a->pre.layout, d.a->s[0], d.a->s[1], d.a->s[2], d.a->s[3], false); }
  } }
  ledgerStart(); schedStart(); schedStepCap(30000000);
  { Sut s; zdnnx_init(); }
  armFaults(true);
  auto body = [&](unsigned u) {
    for (Call &c : calls[u]) {
      unsigned e0 = faultsFiredOf("device-error"), w0 = faultsFiredOf("range-warning"); if (users == 1) refusal.clear();
      op("%s %s %s", c.name.c_str(), sh(*c.a).c_str(), c.b ? sh(*c.b).c_str() : "");
      c.st = perform(c); ev("%s -> %x", c.name.c_str(), c.st);
      unsigned e1 = faultsFiredOf("device-error") - e0, w1 = faultsFiredOf("range-warning") - w0;
      bool alone = users == 1 || !(faultsFiredOf("device-error") + faultsFiredOf("range-warning"));
      judge(c, alone, e1, w1, users == 1 ? refusal : std::string());
      state(std::string(c.name) + "|" + std::to_string(sc.threads) + "|" + std::to_string(c.st) + "|" + std::to_string(c.a->s[0] > 1) + std::to_string(c.a->s[1] > 1) + std::to_string(c.a->s[2] > dev.mdis[2]) + std::to_string(c.a->s[3] > dev.mdis[1]) + "|" + std::to_string(mts) + "|" + std::to_string(schedSwitches() > 6 ? 6 : schedSwitches()));
    }
  };
  std::vector<int> t; for (unsigned u = 1; u < users; u++) t.push_back(taskSpawn(("user" + std::to_string(u)).c_str(), [&, u] { body(u); }));
  body(0); for (int i : t) taskJoin(i);
  schedFinish(); armFaults(false);
  if (ledgerLive(1 << TAG_SUT)) fail("leak", "tile buffers or other memory not released: %s", ledgerDescribe(1 << TAG_SUT).c_str());
  if (deviceOps > calls.size() * 3) probe("several tiles");
  if (faultsFiredOf("device-error")) probe("device error");
  if (sc.big) probe("big tensors"); if (sc.full) probe("full scale");
}
int main(int argc, char **argv) { Options o; o.cpuLimit = 40; return simMain(argc, argv, o, [] {}, run); }
