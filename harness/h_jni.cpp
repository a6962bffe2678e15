// P17: the Java bridge over a simulated Java environment and model.
// P30 (-DTHREADED): the same while several threads call the bridge.
// Real: jniwrapper.c, jnilog.c, OMTensor.c, OMTensorList.c, OnnxDataType.c.
// Stub: the Java virtual machine's native interface (objects, local
// references, borrowed elements, pending exceptions) and the model's code.
#include "OnnxMlirRuntime.h"
#include "com_ibm_onnxmlir_OMModel.h"
#include "simkit.h"
#ifdef THREADED
#include "simsched.h"
#define TL thread_local
#else
#define TL
#endif
#include <cstring>
#include <errno.h>
#include <map>
#include <vector>
using sim::ev; using sim::fail;

extern "C" void log_init(void);
extern "C" void omTensorSetDataPtr(OMTensor *, int64_t, void *, void *);
namespace {
typedef std::vector<int64_t> Dims;
enum Kind { CLS, OMT, OMTL, OARR, LARR, BBUF, STR, THR };
struct Obj {
  Kind k; std::string s;          // class name, string, exception class
  std::vector<Obj *> elems; Obj *ecls = nullptr; // object array
  Dims longs;                     // long array
  char *addr = nullptr; int64_t cap = 0; // direct buffer
  Obj *data = nullptr, *shape = nullptr, *strides = nullptr; int dtype = 0; // tensor
  std::string bytes;              // tensor made by the bridge: its copy of the data
  Obj *arr = nullptr;             // tensor list
};
struct Ref { Obj *o; int call; };
struct Borrow { Obj *o; void *p; bool copy; };
TL int call;                      // sequence number of the native call running
TL Obj *pending;                  // exception
TL std::vector<Borrow> borrowed;
TL bool javaFailed;               // a Java call failed in this call
TL unsigned myFaults;             // faults in calls of this thread
TL JNIEnv theEnv;
void enter(JNIEnv *e);
Obj *mk(Kind k) { Obj *o = new Obj; o->k = k; return o; }
template <class T = jobject> T ref(Obj *o) { return o ? (T)new Ref{o, call} : nullptr; }
Obj *deref(void *r, const char *fn) {
  if (!r) fail("java-null-argument", "%s called on a null reference: the Java machine would stop", fn);
  Ref *x = (Ref *)r;
  if (x->call != call) fail("stale-reference", "%s uses a local reference of another call", fn);
  return x->o;
}
Obj *want(void *r, Kind k, const char *fn) { Obj *o = deref(r, fn); if (o->k != k) fail("java-wrong-kind", "%s called on an object of another kind (%d)", fn, o->k); return o; }
void mustBeClear(const char *fn) { if (pending) fail("call-while-exception-pending", "%s called while a Java exception (%s) is pending", fn, pending->s.c_str()); }
void raise(const char *c) { sim::Env e; pending = mk(THR); pending->s = c; javaFailed = true; }
// a Java call that can only fail by throwing; or (quiet) by a bad result alone
bool throws(const char *fn, const char *exc) { if (!sim::fault("java-exception")) return false; myFaults++; ev("  %s throws", fn); raise(exc); return true; }
bool quiet(const char *fn) { if (!sim::fault("java-null")) return false; myFaults++; ev("  %s -> null", fn); javaFailed = true; return true; }
#define CLEAR(n) bool t_ = false; sim::Env e_; (void)t_; mustBeClear(n)
#define IN(n, exc) mustBeClear(n); bool t_ = throws(n, exc); sim::Env e_

const char *methodName[] = {"<init>", "getData", "setData", "getShape", "setShape", "getStrides", "setStrides", "getDataType", "setDataType", "getBufferSize", "getRank", "getNumElems", "getOmtArray", "size"};
struct Method { const char *cls, *name, *sig; };
const char *CT = "com/ibm/onnxmlir/OMTensor", *CL = "com/ibm/onnxmlir/OMTensorList";
Method methods[] = {
  {CT, "<init>", "(Ljava/nio/ByteBuffer;[J[JI)V"}, {CT, "getData", "()Ljava/nio/ByteBuffer;"}, {CT, "setData", "(Ljava/nio/ByteBuffer;)V"},
  {CT, "getShape", "()[J"}, {CT, "setShape", "([J)V"}, {CT, "getStrides", "()[J"}, {CT, "setStrides", "([J)V"}, {CT, "getDataType", "()I"}, {CT, "setDataType", "(I)V"},
  {CT, "getBufferSize", "()J"}, {CT, "getRank", "()J"}, {CT, "getNumElems", "()J"}, {CL, "<init>", "([Lcom/ibm/onnxmlir/OMTensor;)V"}, {CL, "getOmtArray", "()[Lcom/ibm/onnxmlir/OMTensor;"},
};
Method *M(jmethodID m, const char *fn) { Method *x = (Method *)m; if (x < methods || x >= methods + sizeof methods / sizeof *methods) fail("java-bad-method", "%s called with an unknown method", fn); return x; }

jclass JNICALL FindClass(JNIEnv *, const char *n) {
  IN("FindClass", "java/lang/NoClassDefFoundError"); if (t_) return nullptr;
  static const char *known[] = {"java/lang/Exception", "java/lang/RuntimeException", "java/lang/IllegalArgumentException", "java/lang/NullPointerException", "java/lang/OutOfMemoryError", "java/lang/IllegalStateException", "java/lang/Long", "java/lang/String", CT, CL};
  for (auto k : known) if (!strcmp(k, n)) { Obj *o = mk(CLS); o->s = n; return ref<jclass>(o); }
  fail("java-unknown-class", "class %s does not exist", n);
}
jmethodID JNICALL GetMethodID(JNIEnv *, jclass c, const char *n, const char *s) {
  IN("GetMethodID", "java/lang/NoSuchMethodError"); Obj *o = want(c, CLS, "GetMethodID"); if (t_) return nullptr;
  for (auto &m : methods) if (o->s == m.cls && !strcmp(m.name, n) && !strcmp(m.sig, s)) return (jmethodID)&m;
  fail("java-unknown-method", "%s.%s%s does not exist", o->s.c_str(), n, s);
}
jboolean JNICALL ExceptionCheck(JNIEnv *) { return pending ? JNI_TRUE : JNI_FALSE; }
jthrowable JNICALL ExceptionOccurred(JNIEnv *) { sim::Env e; return ref<jthrowable>(pending); }
void JNICALL ExceptionClear(JNIEnv *) { pending = nullptr; }
void JNICALL ExceptionDescribe(JNIEnv *) {}
jint JNICALL ThrowNew(JNIEnv *, jclass c, const char *msg) {
  IN("ThrowNew", "java/lang/OutOfMemoryError"); Obj *o = want(c, CLS, "ThrowNew"); if (t_) return -1;
  if (o->s == CT || o->s == CL || o->s == "java/lang/Long" || o->s == "java/lang/String") fail("java-wrong-kind", "class %s cannot be thrown", o->s.c_str());
  if (msg && strlen(msg) > 100000) fail("java-bad-message", "message");
  bool j = javaFailed; raise(o->s.c_str()); javaFailed = j; ev("  throws %s", o->s.c_str()); return 0;
}
jint JNICALL Throw(JNIEnv *, jthrowable t) { CLEAR("Throw"); pending = want(t, THR, "Throw"); return 0; }
jsize JNICALL GetArrayLength(JNIEnv *, jarray a) { CLEAR("GetArrayLength"); Obj *o = deref(a, "GetArrayLength"); if (o->k == OARR) return o->elems.size(); if (o->k != LARR) fail("java-wrong-kind", "GetArrayLength of no array"); return o->longs.size(); }
jobjectArray JNICALL NewObjectArray(JNIEnv *, jsize n, jclass c, jobject init) {
  IN("NewObjectArray", "java/lang/OutOfMemoryError"); Obj *k = want(c, CLS, "NewObjectArray");
  if (n < 0) { raise("java/lang/NegativeArraySizeException"); return nullptr; }
  if (t_) return nullptr;
  Obj *o = mk(OARR); o->ecls = k; o->elems.assign(n, init ? deref(init, "NewObjectArray") : nullptr); return ref<jobjectArray>(o);
}
jobject JNICALL GetObjectArrayElement(JNIEnv *, jobjectArray a, jsize i) {
  CLEAR("GetObjectArrayElement"); Obj *o = want(a, OARR, "GetObjectArrayElement");
  if (i < 0 || (size_t)i >= o->elems.size()) { raise("java/lang/ArrayIndexOutOfBoundsException"); return nullptr; }
  return ref(o->elems[i]);
}
void JNICALL SetObjectArrayElement(JNIEnv *, jobjectArray a, jsize i, jobject v) {
  IN("SetObjectArrayElement", "java/lang/ArrayStoreException"); Obj *o = want(a, OARR, "SetObjectArrayElement"); if (t_) return;
  if (i < 0 || (size_t)i >= o->elems.size()) { raise("java/lang/ArrayIndexOutOfBoundsException"); return; }
  o->elems[i] = v ? deref(v, "SetObjectArrayElement") : nullptr;
}
jobject callObj(jobject r, jmethodID m) {
  IN("CallObjectMethod", "java/lang/RuntimeException"); Obj *o = deref(r, "CallObjectMethod"); Method *x = M(m, "CallObjectMethod");
  if (o->k != (x->cls == CT ? OMT : OMTL)) fail("java-wrong-kind", "%s called on another object", x->name);
  if (t_) return nullptr;
  std::string n = x->name; Obj *v;
  if (n == "getData") v = o->data; else if (n == "getShape") v = o->shape; else if (n == "getStrides") v = o->strides; else if (n == "getOmtArray") v = o->arr;
  else fail("java-wrong-kind", "%s called as a method returning an object", x->name);
  return ref(v);
}
jlong callNum(jobject r, jmethodID m, bool isInt) {
  IN("CallLongMethod", "java/lang/RuntimeException"); Obj *o = want(r, OMT, "CallLongMethod"); Method *x = M(m, "CallLongMethod");
  std::string n = x->name;
  if (t_) return 0;
  if (n == "getDataType") { if (!isInt) fail("java-wrong-kind", "getDataType called as a long method"); return o->dtype; }
  if (isInt) fail("java-wrong-kind", "%s called as an int method", x->name);
  if (n == "getBufferSize") return o->data ? o->data->cap : 0;
  if (n == "getRank") return o->shape ? (jlong)o->shape->longs.size() : 0;
  if (n == "getNumElems") { jlong k = 1; if (o->shape) for (auto d : o->shape->longs) k *= d; return k; }
  fail("java-wrong-kind", "%s called as a long method", x->name);
}
jobject JNICALL CallObjectMethod(JNIEnv *e, jobject r, jmethodID m, ...) { enter(e); return callObj(r, m); }
jobject JNICALL CallObjectMethodA(JNIEnv *, jobject r, jmethodID m, const jvalue *) { return callObj(r, m); }
jint JNICALL CallIntMethod(JNIEnv *e, jobject r, jmethodID m, ...) { enter(e); return (jint)callNum(r, m, true); }
jint JNICALL CallIntMethodA(JNIEnv *, jobject r, jmethodID m, const jvalue *) { return (jint)callNum(r, m, true); }
jlong JNICALL CallLongMethod(JNIEnv *e, jobject r, jmethodID m, ...) { enter(e); return callNum(r, m, false); }
jlong JNICALL CallLongMethodA(JNIEnv *, jobject r, jmethodID m, const jvalue *) { return callNum(r, m, false); }
jobject newObj(jclass c, jmethodID m, jobject a, jobject b, jobject d, jint t) {
  IN("NewObject", "java/lang/OutOfMemoryError"); Obj *k = want(c, CLS, "NewObject"); Method *x = M(m, "NewObject");
  if (k->s != x->cls || strcmp(x->name, "<init>")) fail("java-wrong-kind", "constructor of %s for class %s", x->cls, k->s.c_str());
  if (t_) return nullptr;
  if (x->cls == CL) { Obj *o = mk(OMTL); o->arr = a ? want(a, OARR, "NewObject") : nullptr; return ref(o); }
  // OMTensor(ByteBuffer, long[], long[], int) of OMTensor.java: checks, then copies the data
  Obj *o = mk(OMT); Obj *bb = want(a, BBUF, "OMTensor.<init>"); o->shape = want(b, LARR, "OMTensor.<init>"); o->strides = want(d, LARR, "OMTensor.<init>"); o->dtype = t;
  if (o->shape->longs.size() != o->strides->longs.size() || t < 0 || t > 20) { raise("java/lang/IllegalArgumentException"); return nullptr; }
  o->bytes.assign(bb->addr, bb->cap);
  return ref(o);
}
jobject JNICALL NewObject(JNIEnv *e, jclass c, jmethodID m, ...) { enter(e);
  va_list ap; va_start(ap, m); jobject a = va_arg(ap, jobject), b = nullptr, d = nullptr; jint t = 0;
  if (((Method *)m)->cls == CT) { b = va_arg(ap, jobject); d = va_arg(ap, jobject); t = va_arg(ap, jint); }
  va_end(ap); return newObj(c, m, a, b, d, t);
}
jobject JNICALL NewObjectA(JNIEnv *, jclass c, jmethodID m, const jvalue *v) { bool T = ((Method *)m)->cls == CT; return newObj(c, m, v[0].l, T ? v[1].l : nullptr, T ? v[2].l : nullptr, T ? v[3].i : 0); }
void *JNICALL GetDirectBufferAddress(JNIEnv *, jobject b) { mustBeClear("GetDirectBufferAddress"); bool q = quiet("GetDirectBufferAddress"); sim::Env e; Obj *o = want(b, BBUF, "GetDirectBufferAddress"); return q ? nullptr : o->addr; }
jlong JNICALL GetDirectBufferCapacity(JNIEnv *, jobject b) { CLEAR("GetDirectBufferCapacity"); return want(b, BBUF, "GetDirectBufferCapacity")->cap; }
jobject JNICALL NewDirectByteBuffer(JNIEnv *, void *p, jlong n) {
  mustBeClear("NewDirectByteBuffer"); bool q = quiet("NewDirectByteBuffer"), t = !q && throws("NewDirectByteBuffer", "java/lang/OutOfMemoryError"); sim::Env e;
  if (q || t) return nullptr;
  if (n < 0) { raise("java/lang/IllegalArgumentException"); return nullptr; }
  Obj *o = mk(BBUF); o->addr = (char *)p; o->cap = n; return ref(o);
}
jlongArray JNICALL NewLongArray(JNIEnv *, jsize n) { IN("NewLongArray", "java/lang/OutOfMemoryError"); if (t_) return nullptr; if (n < 0) { raise("java/lang/NegativeArraySizeException"); return nullptr; } Obj *o = mk(LARR); o->longs.assign(n, 0x5555); return ref<jlongArray>(o); }
void JNICALL SetLongArrayRegion(JNIEnv *, jlongArray a, jsize s, jsize n, const jlong *v) {
  CLEAR("SetLongArrayRegion"); Obj *o = want(a, LARR, "SetLongArrayRegion");
  if (s < 0 || n < 0 || (size_t)s + n > o->longs.size()) { raise("java/lang/ArrayIndexOutOfBoundsException"); return; }
  for (jsize i = 0; i < n; i++) o->longs[s + i] = v[i];
}
void JNICALL GetLongArrayRegion(JNIEnv *, jlongArray a, jsize s, jsize n, jlong *v) {
  CLEAR("GetLongArrayRegion"); Obj *o = want(a, LARR, "GetLongArrayRegion");
  if (s < 0 || n < 0 || (size_t)s + n > o->longs.size()) { raise("java/lang/ArrayIndexOutOfBoundsException"); return; }
  for (jsize i = 0; i < n; i++) v[i] = o->longs[s + i];
}
jlong *JNICALL GetLongArrayElements(JNIEnv *, jlongArray a, jboolean *isCopy) {
  mustBeClear("GetLongArrayElements"); bool q = quiet("GetLongArrayElements"), t = !q && throws("GetLongArrayElements", "java/lang/OutOfMemoryError"); sim::Env e;
  Obj *o = want(a, LARR, "GetLongArrayElements"); if (q || t) return nullptr;
  bool c = sim::choose(4) || o->longs.empty(); // a copy, or the elements themselves
  jlong *p = c ? (jlong *)malloc(8 * o->longs.size()) : (jlong *)o->longs.data();
  if (c && o->longs.size()) memcpy(p, o->longs.data(), 8 * o->longs.size());
  borrowed.push_back({o, p, c}); if (isCopy) *isCopy = c; return p;
}
void giveBack(Obj *o, void *p, const char *fn, int mode) {
  for (size_t i = 0; i < borrowed.size(); i++) if (borrowed[i].p == p) {
    if (borrowed[i].o != o) fail("java-bad-release", "%s with the elements of another object", fn);
    if (mode != JNI_ABORT && o->k == LARR && borrowed[i].copy) memcpy(o->longs.data(), p, 8 * o->longs.size());
    if (mode == JNI_COMMIT) return;
    if (borrowed[i].copy) free(p);
    borrowed.erase(borrowed.begin() + i); return;
  }
  fail("java-bad-release", "%s with something that is not on loan", fn);
}
void JNICALL ReleaseLongArrayElements(JNIEnv *, jlongArray a, jlong *p, jint mode) { sim::Env e; giveBack(want(a, LARR, "ReleaseLongArrayElements"), p, "ReleaseLongArrayElements", mode); }
const char *JNICALL GetStringUTFChars(JNIEnv *, jstring s, jboolean *isCopy) {
  mustBeClear("GetStringUTFChars"); bool q = quiet("GetStringUTFChars"), t = !q && throws("GetStringUTFChars", "java/lang/OutOfMemoryError"); sim::Env e;
  Obj *o = want(s, STR, "GetStringUTFChars"); if (q || t) return nullptr;
  char *p = strdup(o->s.c_str()); borrowed.push_back({o, p, true}); if (isCopy) *isCopy = JNI_TRUE; return p;
}
void JNICALL ReleaseStringUTFChars(JNIEnv *, jstring s, const char *p) { sim::Env e; giveBack(want(s, STR, "ReleaseStringUTFChars"), (void *)p, "ReleaseStringUTFChars", 0); }
jsize JNICALL GetStringUTFLength(JNIEnv *, jstring s) { CLEAR("GetStringUTFLength"); return want(s, STR, "GetStringUTFLength")->s.size(); }
void JNICALL GetStringUTFRegion(JNIEnv *, jstring s, jsize st, jsize n, char *b) { CLEAR("GetStringUTFRegion"); Obj *o = want(s, STR, "GetStringUTFRegion"); if (st < 0 || n < 0 || (size_t)st + n > o->s.size()) { raise("java/lang/StringIndexOutOfBoundsException"); return; } memcpy(b, o->s.data() + st, n); b[n] = 0; }
jstring JNICALL NewStringUTF(JNIEnv *, const char *p) {
  mustBeClear("NewStringUTF"); bool q = quiet("NewStringUTF"), t = !q && throws("NewStringUTF", "java/lang/OutOfMemoryError");
  if (q || t) return nullptr;
  if (!p) fail("java-null-argument", "NewStringUTF of null");
  size_t n = strlen(p); sim::Env e; Obj *o = mk(STR); o->s.assign(p, n); return ref<jstring>(o);
}
void JNICALL DeleteLocalRef(JNIEnv *, jobject r) { sim::Env e; if (r) { deref(r, "DeleteLocalRef"); ((Ref *)r)->call = -1; } }
jobject JNICALL NewLocalRef(JNIEnv *, jobject r) { sim::Env e; return r ? ref(deref(r, "NewLocalRef")) : nullptr; }
jint JNICALL EnsureLocalCapacity(JNIEnv *, jint) { return 0; }
jint JNICALL PushLocalFrame(JNIEnv *, jint) { return 0; }
jobject JNICALL PopLocalFrame(JNIEnv *, jobject r) { return r; }
jboolean JNICALL IsSameObject(JNIEnv *, jobject a, jobject b) { sim::Env e; return (a ? deref(a, "IsSameObject") : nullptr) == (b ? deref(b, "IsSameObject") : nullptr); }
jint JNICALL GetVersion(JNIEnv *) { return JNI_VERSION_1_8; }
void notModelled() { sim::probe("a Java function that is not modelled"); sim::discard(); }

JNINativeInterface_ table;
// every call must pass the calling thread's environment; other threads may run first
void enter(JNIEnv *e) {
  if (e != &theEnv) fail("foreign-environment", "a Java call uses the environment of another thread");
#ifdef THREADED
  sim::yieldPoint("java");
#endif
}
template <class T, T F> struct Guarded;
template <class R, class... A, R (*F)(JNIEnv *, A...)> struct Guarded<R (*)(JNIEnv *, A...), F> { static R JNICALL go(JNIEnv *e, A... a) { enter(e); return F(e, a...); } };
void mkTable() {
  void **p = (void **)&table; for (size_t i = 0; i < sizeof table / sizeof *p; i++) p[i] = (void *)notModelled;
#define S(f) table.f = Guarded<decltype(&f), &f>::go
#define V(f) table.f = f // variable arguments: calls enter itself
  S(FindClass); S(GetMethodID); S(ExceptionCheck); S(ExceptionOccurred); S(ExceptionClear); S(ExceptionDescribe); S(ThrowNew); S(Throw); S(GetArrayLength); S(NewObjectArray); S(GetObjectArrayElement); S(SetObjectArrayElement);
  V(CallObjectMethod); S(CallObjectMethodA); V(CallIntMethod); S(CallIntMethodA); V(CallLongMethod); S(CallLongMethodA); V(NewObject); S(NewObjectA); S(GetDirectBufferAddress); S(GetDirectBufferCapacity); S(NewDirectByteBuffer);
  S(NewLongArray); S(SetLongArrayRegion); S(GetLongArrayRegion); S(GetLongArrayElements); S(ReleaseLongArrayElements); S(GetStringUTFChars); S(ReleaseStringUTFChars); S(GetStringUTFLength); S(GetStringUTFRegion); S(NewStringUTF);
  S(DeleteLocalRef); S(NewLocalRef); S(EnsureLocalCapacity); S(PushLocalFrame); S(PopLocalFrame); S(IsSameObject); S(GetVersion);
#undef S
#undef V
  theEnv.functions = &table;
}

// ------------------------------------------------------------------ tensors
int sizeOf(int t) { static const int sz[] = {0, 4, 1, 1, 2, 2, 4, 8, 0, 1, 2, 8, 4, 8, 8, 16, 2}; return t > 0 && t < 17 ? sz[t] : 0; }
const int types[] = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16};
struct Ten { Dims shape, strides; int dtype; std::string bytes; };
Ten genTen(bool out) {
  Ten t; t.dtype = types[sim::choose(sizeof types / sizeof *types)];
  int rank = (int)sim::choose(5); int64_t n = 1;
  for (int i = 0; i < rank; i++) { int64_t d = sim::chance(1, 12) ? 0 : sim::range(1, sim::chance(1, 6) ? 40 : 4); if (n * d > 4000) d = 1; t.shape.push_back(d); n *= d; }
  t.strides.assign(rank, 1); for (int i = rank - 2; i >= 0; i--) t.strides[i] = t.strides[i + 1] * t.shape[i + 1];
  t.bytes.resize(n * sizeOf(t.dtype)); uint64_t x = sim::choose(1000) * 0x9e3779b97f4a7c15ull + 1;
  for (auto &c : t.bytes) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = (char)(x >> 24); }
  return t;
}
std::string describe(const Ten &t) { std::string s = "type " + std::to_string(t.dtype) + " shape"; for (auto d : t.shape) s += " " + std::to_string(d); return s; }
struct JIn { Ten t; Obj *o; char *buf; };
Obj *larr(const Dims &d) { Obj *o = mk(LARR); o->longs = d; return o; }

// -------------------------------------------------------------------- model
TL std::vector<JIn> curIn; TL std::vector<Ten> wantOut; TL int modelRuns; TL bool modelFails; TL bool aliasOut; TL size_t aliasOf; TL int badOut = -1;
const char *sigs[3] = {"[ { \"type\" : \"f32\" , \"dims\" : [1 , 2] , \"name\" : \"x\" } ]", "", "[]"};
int inSigOf[2], outSigOf[2], infoOf, nEps; bool sigFails;
std::string longSig;
const char *eps[4];
TL char statics[3][4096 * 16];
const char *sig(int i) { return i == 3 ? longSig.c_str() : sigs[i]; }
} // namespace
extern "C" {
OMTensorList *run_main_graph(OMTensorList *in) {
  sim::Env e; modelRuns++;
  if (pending) fail("model-run-with-exception-pending", "the model was run although a Java exception is pending");
  if (!in) fail("model-null-input", "the model was run without a list of inputs");
  int64_t n = omTensorListGetSize(in);
  if (n != (int64_t)curIn.size()) fail("input-count", "the model got %ld inputs instead of %zu", (long)n, curIn.size());
  for (int64_t i = 0; i < n; i++) {
    OMTensor *t = omTensorListGetOmtByIndex(in, i); JIn &w = curIn[i];
    if (!t) fail("input-null", "input %ld is null", (long)i);
    if (omTensorGetRank(t) != (int64_t)w.t.shape.size()) fail("input-rank", "input %ld has rank %ld instead of %zu", (long)i, (long)omTensorGetRank(t), w.t.shape.size());
    if (omTensorGetDataType(t) != w.t.dtype) fail("input-type", "input %ld has type %d instead of %d", (long)i, (int)omTensorGetDataType(t), w.t.dtype);
    for (size_t d = 0; d < w.t.shape.size(); d++) {
      if (omTensorGetShape(t)[d] != w.t.shape[d]) fail("input-shape", "input %ld dimension %zu is %ld instead of %ld", (long)i, d, (long)omTensorGetShape(t)[d], (long)w.t.shape[d]);
      if (omTensorGetStrides(t)[d] != w.t.strides[d]) fail("input-strides", "input %ld stride %zu is %ld instead of %ld", (long)i, d, (long)omTensorGetStrides(t)[d], (long)w.t.strides[d]);
    }
    const char *p = (const char *)omTensorGetDataPtr(t);
    if (!p || (w.t.bytes.size() && memcmp(p, w.t.bytes.data(), w.t.bytes.size()))) fail("input-data", "input %ld does not hold the bytes of the Java tensor", (long)i);
  }
  if (modelFails) { ev("  model fails"); errno = EPERM; return nullptr; }
  std::vector<OMTensor *> outs; sim::TagScope ts(sim::TAG_MODEL);
  for (size_t i = 0; i < wantOut.size(); i++) {
    Ten &w = wantOut[i]; int how = (int)sim::choose(3); void *alloc, *data; bool own = true; int64_t dummy = 0;
    if (aliasOut && i == aliasOf) { alloc = data = curIn[0].buf; own = false; }
    else if (how == 2 && i < 3) { alloc = data = statics[i]; own = false; memcpy(data, w.bytes.data(), w.bytes.size()); }
    else { size_t off = how == 1 ? 16 : 0; alloc = malloc(w.bytes.size() + off ? w.bytes.size() + off : 1); data = (char *)alloc + off; memcpy(data, w.bytes.data(), w.bytes.size()); }
    OMTensor *t = omTensorCreate(nullptr, w.shape.empty() ? &dummy : w.shape.data(), w.shape.size(), (OM_DATA_TYPE)w.dtype);
    if ((int)i == badOut) { if (own) free(alloc); alloc = data = nullptr; own = false; }
    omTensorSetDataPtr(t, own, alloc, data); omTensorSetStrides(t, w.strides.empty() ? &dummy : w.strides.data());
    outs.push_back(t);
  }
  return omTensorListCreate(outs.data(), outs.size());
}
const char *const *omQueryEntryPoints(int64_t *n) { if (n) *n = nEps; return eps; }
const char *omInputSignature(const char *ep) { sim::Env e; for (int i = 0; i < nEps; i++) if (!strcmp(ep, eps[i])) return sig(inSigOf[i]); return nullptr; }
const char *omOutputSignature(const char *ep) { sim::Env e; for (int i = 0; i < nEps; i++) if (!strcmp(ep, eps[i])) return sig(outSigOf[i]); return nullptr; }
const char *omCompilationInfo() { sim::Env e; return sigFails ? nullptr : sig(infoOf); }
}
namespace {
TL uint32_t mark; TL unsigned faults0;
#ifdef THREADED
unsigned fired() { return myFaults; }
#else
unsigned fired() { return sim::faultsFired(); }
#endif
template <class F> Obj *callIn(const char *name, F f) {
  call++; pending = nullptr; javaFailed = false; borrowed.clear(); mark = sim::ledgerMark(); faults0 = fired();
  jobject r; { sim::Sut s; r = f(); }
  if (!borrowed.empty()) fail("not-given-back", "%s: %zu arrays or strings borrowed from Java were not given back (%s)", name, borrowed.size(), pending ? "exception" : "success");
#ifndef THREADED // there: at the end
  std::string left = sim::ledgerDescribe((1 << sim::TAG_SUT) | (1 << sim::TAG_MODEL), mark);
  if (!left.empty()) fail("leak", "%s (%s) left behind %s", name, pending ? "exception" : r ? "success" : "null", left.c_str());
#endif
  if (!r && !pending) fail("null-without-exception", "%s returned nothing and no Java exception is pending", name);
  if (r && pending) fail("result-with-exception", "%s returned a result while a Java exception (%s) is pending", name, pending->s.c_str());
  if (!r && fired() == faults0 && !modelFails && badOut < 0 && !sigFails) return nullptr; // caller decides
  return r ? deref(r, name) : nullptr;
}
bool faulted() { return fired() != faults0; }
void opMain() {
  curIn.clear(); wantOut.clear(); modelRuns = 0;
  int ni = (int)sim::choose(4), no = sim::chance(1, 10) ? 0 : 1 + (int)sim::choose(3);
  modelFails = sim::chance(1, 8); aliasOut = ni && no && sim::chance(1, 8); aliasOf = aliasOut ? sim::choose(no) : 0;
  int bad = sim::chance(1, 8) ? 1 + (int)sim::choose(6) : 0; if (bad >= 3 && !ni) bad = 0;
  Obj *arr = mk(OARR);
  for (int i = 0; i < ni; i++) {
    JIn j; j.t = genTen(false); j.buf = (char *)malloc(j.t.bytes.size() + 1); memcpy(j.buf, j.t.bytes.data(), j.t.bytes.size());
    Obj *o = mk(OMT); o->data = mk(BBUF); o->data->addr = j.buf; o->data->cap = j.t.bytes.size(); o->shape = larr(j.t.shape); o->strides = larr(j.t.strides); o->dtype = j.t.dtype; j.o = o;
    arr->elems.push_back(o); curIn.push_back(j);
  }
  for (int i = 0; i < no; i++) wantOut.push_back(aliasOut && i == (int)aliasOf ? curIn[0].t : genTen(true));
  badOut = -1; if (no && !bad && !modelFails && sim::chance(1, 16)) { badOut = sim::choose(no); if (wantOut[badOut].bytes.empty() || (aliasOut && badOut == (int)aliasOf)) badOut = -1; }
  Obj *list = mk(OMTL); list->arr = arr; Obj *arg = list; int b = ni ? (int)sim::choose(ni) : 0;
  if (bad == 1) arg = nullptr; if (bad == 2) list->arr = nullptr;
  if (bad == 3) arr->elems[b] = nullptr; if (bad == 4) curIn[b].o->data = nullptr; if (bad == 5) curIn[b].o->dtype = 0; if (bad == 6) (sim::choose(2) ? curIn[b].o->shape : curIn[b].o->strides) = nullptr;
  sim::op("main_graph %d inputs %d outputs%s%s bad %d", ni, no, modelFails ? " model fails" : "", aliasOut ? " aliased" : "", bad);
  for (auto &j : curIn) ev("  in %s", describe(j.t).c_str()); for (auto &t : wantOut) ev("  out %s", describe(t).c_str());
  call++; // references handed to the call belong to it
  jobject a = nullptr; call++; a = ref(arg); if (a) ((Ref *)a)->call = call + 1;
  Obj *r = callIn("main_graph", [&] { return Java_com_ibm_onnxmlir_OMModel_main_1graph_1jni(&theEnv, nullptr, a); });
  ev("  -> %s%s runs %d", r ? "list" : "exception ", pending ? pending->s.c_str() : "", modelRuns);
  if (bad) sim::probe("invalid input refused"); if (modelFails && modelRuns) sim::probe("model failed");
  if (r && (bad || modelFails || badOut >= 0)) fail("result-of-failure", "main_graph returned a result although %s", bad ? "an input is invalid" : modelFails ? "the model failed" : "an output of the model has no data");
  if (badOut >= 0) sim::probe("output without data");
  if (bad && modelRuns) fail("model-run-on-invalid", "the model was run although an input is invalid (%d)", bad);
  if (modelRuns > 1) fail("model-run-twice", "the model was run %d times for one call", modelRuns);
  if (!r && !bad && !modelFails && badOut < 0 && !faulted()) fail("refused", "main_graph threw %s although nothing failed", pending ? pending->s.c_str() : "?");
  for (auto &j : curIn) {
    if (memcmp(j.buf, j.t.bytes.data(), j.t.bytes.size())) fail("java-data-changed", "data of a Java tensor was changed");
    if (j.o->shape && j.o->shape->longs != j.t.shape) fail("java-shape-changed", "shape of a Java tensor was changed");
    if (j.o->strides && j.o->strides->longs != j.t.strides) fail("java-strides-changed", "strides of a Java tensor were changed");
  }
  if (r) {
    if (modelRuns != 1) fail("result-without-run", "main_graph returned a result without running the model");
    if (r->k != OMTL || !r->arr) fail("output-kind", "main_graph returned something that is not a tensor list");
    if (r->arr->elems.size() != wantOut.size()) fail("output-count", "main_graph returned %zu tensors instead of %zu", r->arr->elems.size(), wantOut.size());
    if (r->arr->ecls && r->arr->ecls->s != CT) fail("output-kind", "the outputs are in an array of %s", r->arr->ecls->s.c_str());
    for (size_t i = 0; i < wantOut.size(); i++) {
      Obj *t = r->arr->elems[i]; Ten &w = wantOut[i];
      if (!t || t->k != OMT) fail("output-kind", "output %zu is not a tensor", i);
      if (t->dtype != w.dtype) fail("output-type", "output %zu has type %d instead of %d", i, t->dtype, w.dtype);
      if (t->shape->longs != w.shape) fail("output-shape", "output %zu (%s) has another shape", i, describe(w).c_str());
      if (t->strides->longs != w.strides) fail("output-strides", "output %zu (%s) has other strides", i, describe(w).c_str());
      if (t->bytes != w.bytes) fail("output-data", "output %zu (%s) has other bytes (%zu instead of %zu)", i, describe(w).c_str(), t->bytes.size(), w.bytes.size());
    }
    sim::probe("outputs compared");
  }
  for (auto &j : curIn) free(j.buf);
  sim::state("main " + std::to_string(ni) + " " + std::to_string(no) + (r ? " ok" : " exc ") + (pending ? pending->s : "") + " " + std::to_string(bad) + (modelFails ? "m" : "") + std::to_string(modelRuns) + (faulted() ? "f" : ""));
}
void genText() {
  static const char *epn[] = {"run_main_graph", "", "run_a_rather_long_entry_point_name_of_a_model_with_several_entry_points"};
  nEps = (int)sim::choose(3); for (int i = 0; i < nEps; i++) { eps[i] = epn[(i + sim::choose(3)) % 3]; inSigOf[i] = sim::choose(4); outSigOf[i] = sim::choose(4); } eps[nEps] = nullptr;
  if (nEps == 2 && eps[0] == eps[1]) nEps = 1, eps[1] = nullptr;
  infoOf = sim::choose(4); longSig.assign(sim::chance(1, 3) ? 5000 : 900, 's');
  sigFails = sim::chance(1, 8);
}
void opText() {
  int which = (int)sim::choose(4); modelFails = false; badOut = -1;
#ifndef THREADED // there: one model for all threads
  genText();
#endif
  std::string ep = nEps && !sim::chance(1, 4) ? eps[sim::choose(nEps)] : sim::chance(1, 2) ? "nosuch" : std::string(3000, 'n');
  bool nullEp = sim::chance(1, 16); const char *want = nullptr; Obj *so = mk(STR); so->s = ep;
  sim::op("%s ep '%s' of %d%s", which == 0 ? "query_entry_points" : which == 1 ? "input_signature" : which == 2 ? "output_signature" : "compilation_info", ep.size() > 80 ? "long" : ep.c_str(), nEps, nullEp ? " null" : "");
  call++; jstring a = nullEp ? nullptr : ref<jstring>(so); if (a) ((Ref *)a)->call = call + 1;
  Obj *r; const char *nm;
  if (which == 0) {
    nm = "query_entry_points"; r = callIn(nm, [&] { return (jobject)Java_com_ibm_onnxmlir_OMModel_query_1entry_1points(&theEnv, nullptr); });
    if (!r) { if (!faulted()) fail("refused", "query_entry_points threw although nothing failed"); }
    else {
      if (r->k != OARR || (int)r->elems.size() != nEps) fail("text-result", "query_entry_points returned %zu names instead of %d", r->elems.size(), nEps);
      for (int i = 0; i < nEps; i++) if (!r->elems[i] || r->elems[i]->k != STR || r->elems[i]->s != eps[i]) fail("text-result", "query_entry_points returned another name %d", i);
    }
  } else {
    nm = which == 1 ? "input_signature" : which == 2 ? "output_signature" : "compilation_info";
    if (which == 3) { want = sigFails ? nullptr : sig(infoOf); }
    else if (!nullEp) want = which == 1 ? omInputSignature(ep.c_str()) : omOutputSignature(ep.c_str());
    r = callIn(nm, [&] { return (jobject)(which == 1 ? Java_com_ibm_onnxmlir_OMModel_input_1signature_1jni(&theEnv, nullptr, a) : which == 2 ? Java_com_ibm_onnxmlir_OMModel_output_1signature_1jni(&theEnv, nullptr, a) : Java_com_ibm_onnxmlir_OMModel_compilation_1info_1jni(&theEnv, nullptr)); });
    if (r && !want) fail("result-of-failure", "%s returned text although the model gave none", nm);
    if (r && (r->k != STR || r->s != want)) fail("text-result", "%s returned another text", nm);
    if (!r && want && !faulted()) fail("refused", "%s threw although nothing failed", nm);
    if (!want) sim::probe("model without that text");
  }
  ev("  -> %s", r ? "ok" : pending->s.c_str());
  sim::state(std::string(nm) + (r ? " ok " : " exc ") + (pending ? pending->s : "") + (faulted() ? "f" : "") + (nullEp ? "n" : "") + (want ? "w" : ""));
}
int calls;
void run() {
#ifdef THREADED
  sim::faultKinds({"java-exception", "java-null"});
#else
  sim::faultKinds({"java-exception", "java-null", "malloc-fails"});
#endif
  if (sim::chance(1, 4)) setenv("ONNX_MLIR_JNI_LOG_LEVEL", "trace", 1);
  { sim::Env e; log_init(); }
  mkTable(); sim::ledgerStart(); sim::armFaults(true);
  int n = 1 + (int)sim::choose(4);
#ifdef THREADED
  genText(); int k = 2 + (int)sim::choose(2); if (n > 2) n = 2;
  sim::schedStart(); call = 1000000;
  for (int t = 0; t < k; t++) sim::taskSpawn(("java" + std::to_string(t)).c_str(), [=] {
    theEnv.functions = &table; call = 1000 * (t + 2); // references of one thread are none of another
    for (int i = 0; i < n; i++) { if (sim::choose(4) == 3) opText(); else opMain(); }
    calls += n;
  });
  sim::schedFinish();
  std::string left = sim::ledgerDescribe((1 << sim::TAG_SUT) | (1 << sim::TAG_MODEL), 0);
  if (!left.empty()) fail("leak", "%d calls left behind %s", calls, left.c_str());
  sim::state("k" + std::to_string(k) + "n" + std::to_string(n) + "s" + std::to_string(sim::schedSwitches()) + "f" + std::to_string(sim::faultsFired()));
#else
  for (int i = 0; i < n; i++) { if (sim::choose(4) == 3) opText(); else opMain(); }
#endif
}
} // namespace
int main(int argc, char **argv) { return sim::simMain(argc, argv, sim::Options{}, [] {}, run); }
