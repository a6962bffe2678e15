"""A small torch: integer tensors with exact arithmetic, FX graphs and an
exporter, with the interfaces the backend uses and their documented meaning."""
import sys, types
class dtype:
    def __init__(s, n, f): s.n, s.is_floating_point = n, f
    def __repr__(s): return "torch." + s.n
    __str__ = __repr__
    def __reduce__(s): return s.n
float32, float64, float16, int64, int32, bool_ = dtype("float32", True), dtype("float64", True), dtype("float16", True), dtype("int64", False), dtype("int32", False), dtype("bool", False)
float, long, int_ = float32, int64, int32
bool = bool_
class SymInt:
    """A symbolic dimension: a name and its value in the example."""
    def __init__(s, name, v): s.name, s.v = name, v
    def __str__(s): return s.name
    __repr__ = __str__
    def __eq__(s, o): return isinstance(o, SymInt) and o.name == s.name
    def __hash__(s): return hash(s.name)
class Size(tuple): pass
def _numel(shape):
    n = 1
    for d in shape: n *= d.v if isinstance(d, SymInt) else d
    return n
class Tensor:
    requires_grad = False; device = "cpu"; layout = "strided"
    def __init__(s, data=(), shape=None, dt=None):
        s.data_ = list(data); s.shape = Size(shape if shape is not None else (len(s.data_),)); s.dtype = dt or float32
    @property
    def ndim(s): return len(s.shape)
    def dim(s): return len(s.shape)
    def size(s, d=None): return s.shape if d is None else s.shape[d]
    def numel(s): return _numel(s.shape)
    nelement = numel
    def item(s):
        if len(s.data_) != 1: raise RuntimeError("a Tensor with %d elements cannot be converted to Scalar" % len(s.data_))
        return s.data_[0]
    def __len__(s): return s.shape[0]
    def __bool__(s):
        if len(s.data_) != 1: raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return s.data_[0] != 0
    def contiguous(s): return s
    def detach(s): return s
    def cpu(s): return s
    def clone(s): return Tensor(s.data_, s.shape, s.dtype)
    def stride(s): return ()
    def type(s): return "torch.FloatTensor" if s.dtype is float32 else "torch.Tensor"
    def view(s, *a): return s.reshape(*a)
    def reshape(s, *a):
        if a == (-1,): return Tensor(s.data_, (len(s.data_),), s.dtype)
        return Tensor(s.data_, a, s.dtype)
    def flatten(s): return s.reshape(-1)
    def tolist(s):
        def rec(d, sh):
            if not sh: return d[0]
            n = len(d) // sh[0] if sh[0] else 0
            return [rec(d[i * n:(i + 1) * n], sh[1:]) for i in range(sh[0])]
        return rec(s.data_, s.shape)
    def numpy(s): return NP(s)
    def to(s, *a, **k): return s
    def __getitem__(s, i):
        if isinstance(i, slice) and len(s.shape) == 1: d = s.data_[i]; return Tensor(d, (len(d),), s.dtype)
        if isinstance(i, int) and len(s.shape) == 1: return Tensor([s.data_[i]], (), s.dtype)
        raise TypeError("not simulated")
    def __iter__(s): return iter([s[i] for i in range(s.shape[0])])
    def __repr__(s): return "tensor(%s, shape=%s)" % (s.data_[:6], tuple(s.shape))
    def __hash__(s): return id(s)
class NP:
    """What .numpy() gives and sess.run takes and returns."""
    def __init__(s, t): s.t = t; s.shape = tuple(t.shape); s.dtype = str(t.dtype)
def from_numpy(a): return Tensor(a.t.data_, a.t.shape, a.t.dtype)
def empty(shape, dtype=None, **k):
    if isinstance(shape, int): shape = (shape,)
    return Tensor([0] * _numel(shape), shape, dtype)
zeros = empty
def tensor(v, dtype=None): return Tensor(v if isinstance(v, list) else [v], None if isinstance(v, list) else (), dtype)
def is_tensor(x): return isinstance(x, Tensor)
def equal(a, b): return a.shape == b.shape and a.data_ == b.data_
class no_grad:
    def __enter__(s): return s
    def __exit__(s, *a): pass
    def __call__(s, f): return f
inference_mode = no_grad
def typename(obj, /):
    if isinstance(obj, Tensor): return obj.type()
    module = getattr(obj, "__module__", None) or ""
    if hasattr(obj, "__qualname__"): q = obj.__qualname__
    elif hasattr(obj, "__name__"): q = obj.__name__
    else: module = obj.__class__.__module__ or ""; q = obj.__class__.__qualname__
    return q if module in ("", "builtins") else module + "." + q
# ---- operators: functions with torch-like names
def _b(f, a, b):
    if not isinstance(a, Tensor): a, b, g = b, a, (lambda x, y: f(y, x))
    else: g = f
    if not isinstance(b, Tensor): return Tensor([g(x, b) for x in a.data_], a.shape, a.dtype)
    if len(b.data_) == 1: return Tensor([g(x, b.data_[0]) for x in a.data_], a.shape, a.dtype)
    if len(a.data_) == 1: return Tensor([g(a.data_[0], y) for y in b.data_], b.shape, b.dtype)
    n = max(len(a.data_), len(b.data_)); A, B = a.data_, b.data_
    if not A or not B: return Tensor([], (a if len(A) == 0 else b).shape, a.dtype)
    return Tensor([g(A[i % len(A)], B[i % len(B)]) for i in range(n)], a.shape if len(A) == n else b.shape, a.dtype)
def _w(x): return int(x) % 1000003
def add(a, b, alpha=1): return _b(lambda x, y: _w(x + alpha * y), a, b)
def sub(a, b): return _b(lambda x, y: _w(x - y), a, b)
def mul(a, b): return _b(lambda x, y: _w(x * y), a, b)
def relu(a): return Tensor([max(x - 500, 0) for x in a.data_], a.shape, a.dtype)
def neg(a): return Tensor([_w(-x) for x in a.data_], a.shape, a.dtype)
def cumsum(a, dim=0):
    """Cumulative along one dimension, so that the dimension matters."""
    sh = tuple(a.shape)
    if not sh: return a
    dim %= len(sh); inner = 1
    for d in sh[dim + 1:]: inner *= d
    out = list(a.data_)
    for i in range(len(out)):
        if (i // inner) % sh[dim]: out[i] = _w(out[i] + out[i - inner])
    return Tensor(out, sh, a.dtype)
def where3(a, b, c): return add(add(a, mul(b, 2)), mul(c, 3))
def sym_sum(l): return sum(l)
def split2(a): return (add(a, 1), mul(a, 2))
for _f in (add, sub, mul, relu, neg, cumsum, where3, sym_sum, split2): _f.__module__ = "torch"
class _Op:
    """An operator overload: named like torch.ops.aten.NAME.OVERLOAD."""
    def __init__(s, n, f): s.f = f; s.__name__ = n; s.__qualname__ = n; s.__module__ = "torch._ops.aten"
    def __call__(s, *a, **k): return s.f(*a, **k)
    def __repr__(s): return "aten." + s.__name__
class _Packet(_Op):
    def __init__(s, n, f, *ov):
        super().__init__(n, f)
        for o in ov: setattr(s, o, _Op(n + "." + o, f))
ops = types.SimpleNamespace(aten=types.SimpleNamespace(
    sym_size=_Packet("sym_size", lambda t, d: t.shape[d], "int", "default"), sym_numel=_Packet("sym_numel", lambda t: t.numel(), "default"),
    ones_like=_Packet("ones_like", lambda t, **k: Tensor([1] * len(t.data_), t.shape, k.get("dtype")), "default"),
    add=_Packet("add", add, "Tensor", "Scalar"), sub=_Packet("sub", sub, "Tensor"), mul=_Packet("mul", mul, "Tensor", "Scalar")))
def _mod(name, **k):
    m = types.ModuleType("torch." + name); m.__dict__.update(k); sys.modules["torch." + name] = m
    parent, _, leaf = ("torch." + name).rpartition("."); setattr(sys.modules[parent], leaf, m); m.__path__ = []
    return m
class Parameter(Tensor):
    def __init__(s, t, requires_grad=False): super().__init__(t.data_, t.shape, t.dtype)
class Module:
    training = True
    def __init__(s): s.__dict__.update(_parameters={}, _buffers={}, _modules={})
    def __setattr__(s, n, v):
        if isinstance(v, Parameter): s._parameters[n] = v
        elif isinstance(v, Module): s._modules[n] = v
        elif n in s.__dict__.get("_buffers", ()) : s._buffers[n] = v
        else: object.__setattr__(s, n, v)
    def __getattr__(s, n):
        for t in ("_parameters", "_buffers", "_modules"):
            if n in s.__dict__.get(t, {}): return s.__dict__[t][n]
        raise AttributeError(n)
    def register_buffer(s, n, v, persistent=True): s._buffers[n] = v
    def register_parameter(s, n, v): s._parameters[n] = v
    def eval(s): s.training = False; return s
    def _walk(s, t, pre=""):
        for n, v in s.__dict__[t].items(): yield pre + n, v
        for n, m in s._modules.items(): yield from m._walk(t, pre + n + ".")
    def named_parameters(s): return s._walk("_parameters")
    def named_buffers(s): return s._walk("_buffers")
    def parameters(s): return (v for _, v in s.named_parameters())
    def buffers(s): return (v for _, v in s.named_buffers())
    def state_dict(s): return dict(list(s.named_parameters()) + list(s.named_buffers()))
    def get_submodule(s, t):
        m = s
        for p in t.split(".") if t else (): m = getattr(m, p)
        return m
    def get_parameter(s, t):
        p = s._get(t)
        if not isinstance(p, Parameter): raise AttributeError(t)
        return p
    def get_buffer(s, t):
        p = s._get(t)
        if not isinstance(p, Tensor) or isinstance(p, Parameter): raise AttributeError(t)
        return p
    def _get(s, t):
        m = s
        for p in t.split("."): m = getattr(m, p)
        return m
nn = _mod("nn", Parameter=Parameter, Module=Module); _mod("nn.parameter", Parameter=Parameter)
from . import _fx
fx = _mod("fx", Graph=_fx.Graph, Node=_fx.Node, GraphModule=_fx.GraphModule, map_arg=_fx.map_arg); _mod("fx.node", Node=_fx.Node, map_arg=_fx.map_arg, map_aggregate=_fx.map_aggregate, Argument=object)
_mod("fx.graph", Graph=_fx.Graph); _mod("fx.graph_module", GraphModule=_fx.GraphModule)
_mod("fx.experimental"); _mod("fx.experimental.symbolic_shapes", sym_eq=lambda a, b: a == b)
class Dim:
    def __init__(s, n, **k): s.__name__ = n
_mod("export", Dim=Dim)
class FakeTensor(Tensor): pass
class FakeTensorMode:
    def __enter__(s): return s
    def __exit__(s, *a): pass
_mod("_subclasses"); _mod("_subclasses.fake_tensor", FakeTensor=FakeTensor, FakeTensorMode=FakeTensorMode)
def _ident(x): return x
def sha256_hash(data):
    import base64, hashlib
    return base64.b32encode(hashlib.sha256(data).digest())[:51].decode("utf-8").lower()
class FxGraphCachePickler:
    def __init__(s, gm): s.dispatch_table = {}
    def get_hash(s, d): raise NotImplementedError
class FxGraphHashDetails: pass
_mod("_inductor"); _mod("_inductor.codecache", _ident=_ident, sha256_hash=sha256_hash, extract_tensor_metadata_for_cache_key=lambda t: (t.shape, t.dtype), FxGraphCachePickler=FxGraphCachePickler, FxGraphHashDetails=FxGraphHashDetails)
class InvalidBackend(Exception): pass
def lookup_backend(n): raise InvalidBackend(n)
def disable(f=None, **k): return f
_mod("_dynamo", register_backend=lambda **k: None, disable=disable, config=types.SimpleNamespace())
_mod("_dynamo.backends"); _mod("_dynamo.backends.registry", lookup_backend=lookup_backend); _mod("_dynamo.exc", InvalidBackend=InvalidBackend)
compiler = types.SimpleNamespace(disable=disable)
class UnsupportedOperatorError(RuntimeError): pass
onnx = _mod("onnx", export=_fx.export); _mod("onnx.errors", UnsupportedOperatorError=UnsupportedOperatorError, OnnxExporterError=RuntimeError)
