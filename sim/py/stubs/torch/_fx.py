"""FX graphs: nodes, users, erasure, interpretation, and the exporter."""
import json
import torch
import pysim
from pysim import Env, fault
class immutable_list(list):
    def __hash__(s): return hash(tuple(s))
class immutable_dict(dict): pass
def map_aggregate(a, fn):
    if isinstance(a, tuple): return tuple(map_aggregate(x, fn) for x in a)
    if isinstance(a, list): return immutable_list(map_aggregate(x, fn) for x in a)
    if isinstance(a, dict): return immutable_dict((k, map_aggregate(v, fn)) for k, v in a.items())
    if isinstance(a, slice): return slice(map_aggregate(a.start, fn), map_aggregate(a.stop, fn), map_aggregate(a.step, fn))
    return fn(a)
def map_arg(a, fn): return map_aggregate(a, lambda x: fn(x) if isinstance(x, Node) else x)
class Node:
    def __init__(s, graph, name, op, target, args=(), kwargs=None, type_expr=None):
        s.graph, s.name, s.op, s.target, s.type = graph, name, op, target, type_expr
        s.users = {}; s._input_nodes = {}; s.meta = {}; s._erased = False; s._set(args, kwargs or {})
    def _set(s, args, kwargs):
        for n in s._input_nodes: n.users.pop(s, None)
        s._input_nodes = {}
        def f(n): s._input_nodes.setdefault(n); n.users.setdefault(s); return n
        s._args = map_arg(tuple(args), f); s._kwargs = map_arg(dict(kwargs), f)
    @property
    def args(s): return s._args
    @args.setter
    def args(s, a): s._set(a, s._kwargs)
    @property
    def kwargs(s): return s._kwargs
    @kwargs.setter
    def kwargs(s, k): s._set(s._args, k)
    @property
    def all_input_nodes(s): return list(s._input_nodes)
    @property
    def next(s): l = s.graph._l; return l[l.index(s) + 1]
    def replace_all_uses_with(s, new, delete_user_cb=lambda u: True, propagate_meta=False):
        out = []
        for u in list(s.users):
            if not delete_user_cb(u): continue
            f = lambda n: new if n is s else n
            u._set(map_arg(u._args, f), map_arg(u._kwargs, f)); out.append(u)
        return out
    def replace_input_with(s, old, new):
        f = lambda n: new if n is old else n
        s._set(map_arg(s._args, f), map_arg(s._kwargs, f))
    def __repr__(s): return s.name
    __str__ = __repr__
class _At:
    def __init__(s, g, n): s.g, s.n = g, n
    def __enter__(s): s.prev, s.g._at = s.g._at, s.n
    def __exit__(s, *a): s.g._at = s.prev
class Graph:
    def __init__(s, *a, **k): s._l = []; s._names = {}; s._at = None; s._used = set()
    @property
    def nodes(s): return _Nodes(s)
    def _name(s, base):
        base = "".join(c if c.isalnum() else "_" for c in str(base)) or "node"
        n, i = base, 0
        while n in s._used: i += 1; n = "%s_%d" % (base, i)
        s._used.add(n); return n
    def create_node(s, op, target, args=(), kwargs=None, name=None, type_expr=None):
        if name is None:
            name = target if isinstance(target, str) else getattr(target, "__name__", "fn")
        n = Node(s, s._name(name), op, target, args, kwargs, type_expr)
        if s._at is None: s._l.append(n)
        else: s._l.insert(s._l.index(s._at), n)
        return n
    def placeholder(s, name, type_expr=None, default_value=None): return s.create_node("placeholder", name, type_expr=type_expr)
    def get_attr(s, q, type_expr=None): return s.create_node("get_attr", q)
    def call_function(s, f, args=(), kwargs=None, type_expr=None): return s.create_node("call_function", f, args, kwargs)
    def call_method(s, m, args=(), kwargs=None, type_expr=None): return s.create_node("call_method", m, args, kwargs)
    def output(s, r, type_expr=None): return s.create_node("output", "output", (r,))
    def inserting_before(s, n=None): return _At(s, n)
    def inserting_after(s, n): i = s._l.index(n); return _At(s, s._l[i + 1] if i + 1 < len(s._l) else None)
    def find_nodes(s, *, op, target=None, sort=True): return [n for n in s._l if n.op == op and (target is None or n.target == target)]
    def output_node(s): return s._l[-1]
    def erase_node(s, n):
        if n.users: raise RuntimeError("Tried to erase Node %s but it still had %d users in the graph: %s!" % (n, len(n.users), n.users))
        n._set((), {}); n._erased = True; s._l.remove(n)
    def eliminate_dead_code(s):
        ch = False
        for n in reversed(s._l[:]):
            if n.op not in ("placeholder", "output") and not n.users: s.erase_node(n); ch = True
        return ch
    def lint(s):
        seen = set(); names = set()
        for n in s._l:
            for i in n._input_nodes:
                if i not in seen: raise RuntimeError("Argument '%s' of Node '%s' was used before it has been defined!" % (i, n))
            if n.name in names: raise RuntimeError("Node redefined name %s!" % n.name)
            seen.add(n); names.add(n.name)
class _Nodes:
    def __init__(s, g): s.g = g
    def __iter__(s): return iter([n for n in s.g._l])
    def __reversed__(s): return reversed(list(s.g._l))
    def __len__(s): return len(s.g._l)
class GraphModule(torch.Module):
    def __init__(s, root, graph, class_name="GraphModule"):
        super().__init__(); object.__setattr__(s, "meta", {})
        if isinstance(root, torch.Module):
            s._parameters.update(root._parameters); s._buffers.update(root._buffers); s._modules.update(root._modules)
            for k, v in root.__dict__.items():
                if k not in ("_parameters", "_buffers", "_modules", "_graph", "meta", "training"): s.__dict__[k] = v
            if hasattr(root, "meta"): s.meta.update(root.meta)
        else:
            for k, v in root.items(): setattr(s, k, v)
        object.__setattr__(s, "_graph", graph)
    @property
    def graph(s): return s._graph
    @property
    def code(s): return "\n".join("%s = %s[%s](%s, %s)" % (n.name, n.op, n.target, n.args, n.kwargs) for n in s._graph._l)
    def recompile(s): return None
    def print_readable(s, *a, **k): return s.code
    def __call__(s, *args):
        return execute(program(s), dict(attrs(s)), args)
    forward = __call__
# ---- meaning of a graph
def _enc(a, ids):
    if isinstance(a, Node): return ["n", ids[a]]
    if isinstance(a, (list, tuple)): return ["l", [_enc(x, ids) for x in a]]
    if isinstance(a, dict): return ["d", [[k, _enc(v, ids)] for k, v in a.items()]]
    if isinstance(a, torch.Tensor): return ["t", a.data_, list(a.shape), a.dtype.n]
    if isinstance(a, torch.dtype): return ["dt", a.n]
    if a is None or isinstance(a, (int, float, str)): return ["c", a]
    raise RuntimeError("cannot export an argument of type %s" % type(a).__name__)
FN = {}
def _fname(t):
    n = torch.typename(t) if not isinstance(t, str) else t
    FN[n] = t; return n
def program(gm):
    ids = {n: i for i, n in enumerate(gm._graph._l)}
    return [[n.op, _fname(n.target) if n.op == "call_function" else n.target if n.op != "placeholder" else None, _enc(list(n.args), ids), _enc(dict(n.kwargs), ids)] for n in gm._graph._l]
def attrs(gm):
    for n in gm._graph._l:
        if n.op == "get_attr": yield n.target, gm._get(n.target)
def execute(prog, at, args):
    env = {}; args = list(args)
    def dec(a):
        k = a[0]
        if k == "n": return env[a[1]]
        if k == "l": return [dec(x) for x in a[1]]
        if k == "d": return {x: dec(v) for x, v in a[1]}
        if k == "t": return torch.Tensor(a[1], a[2], getattr(torch, a[3], None))
        if k == "dt": return getattr(torch, a[1])
        return a[1]
    for i, (op, t, a, kw) in enumerate(prog):
        if op == "placeholder":
            if not args: raise TypeError("missing argument")
            env[i] = args.pop(0)
        elif op == "get_attr": env[i] = at[t]
        elif op == "call_function": env[i] = FN[t](*dec(a), **dec(kw))
        elif op == "call_method":
            x = dec(a); m = t; kw_ = dec(kw)
            if m in ("add", "sub", "mul", "relu", "neg", "cumsum"): env[i] = getattr(torch, m)(*x, **kw_)
            else: env[i] = getattr(x[0], m)(*x[1:], **kw_)
        elif op == "output":
            if args: raise TypeError("too many arguments")
            return dec(a)[0]
def flat(r): return [y for x in r for y in flat(x)] if isinstance(r, (list, tuple)) else [r]
def export(gm, args, path, input_names=None, dynamic_shapes=None, dynamo=False, report=False, **k):
    """Writes the model: its program, its parameters and which dimensions are fixed."""
    if pysim.FS.dead: raise pysim.Crash()
    if fault("export-unsupported"): raise torch.UnsupportedOperatorError("unsupported operator (injected)")
    if fault("export-fails"): raise RuntimeError("export failed (injected)")
    ph = [n for n in gm._graph._l if n.op == "placeholder"]
    if len(ph) != len(args): raise RuntimeError("%d placeholders, %d example inputs" % (len(ph), len(args)))
    if list(input_names or []) != [n.target for n in ph]: raise RuntimeError("input names %s do not match" % input_names)
    fixed = []
    for n, a in zip(ph, args):
        dyn = (dynamic_shapes or {}).get(n.target, {}) or {}
        fixed.append([dyn[i].__name__ if i in dyn else d for i, d in enumerate(a.shape)])
    import json
    params = {t: ["t", v.data_, list(v.shape), v.dtype.n] if isinstance(v, torch.Tensor) else ["c", v] for t, v in attrs(gm)}
    d = {"program": [program(gm), fixed, [a.dtype.n for a in args]], "params": params if params else None}
    with Env(): pysim._real_open(path, "w").write(json.dumps(d))
