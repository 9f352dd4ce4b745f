"""Library model of the part of PyTorch that an automatic-differentiation model uses:
tensors with values, an operation graph whose buffers are freed by a backward pass unless
it is retained, and the reasons for which torch.autograd.grad raises."""

import ast
import copy

import numpy as np

from . import alg, npm
from .absval import AArray, AbsRaise, HostFunc, HostObj, TypeTok, Unsupported

NOSAVE = {"Add", "Sub", "USub", "sum", "clone", "reshape", "index", "stack"}


class Node:
    def __init__(self, op, parents, leaves):
        self.op, self.parents, self.leaves = op, parents, frozenset(leaves)
        self.saved = op not in NOSAVE
        self.freed = False


class Leaf:
    """An independent variable: fresh atoms standing for its elements."""

    def __init__(self, tensor, data):
        self.tensor = tensor
        self.atoms = {}
        self.back = {}
        out = np.empty(data.shape, dtype=object)
        for k, i in enumerate(np.ndindex(*data.shape)):
            v = alg.topoly(data[i])
            a = alg.var("leaf%d[%d]" % (len(alg.ATOMS), k), key=("leaf", id(self), k))
            idx = a.is_var().idx
            self.atoms[i] = idx
            self.back[idx] = v
            out[i] = a
        self.data = out


class TTensor(HostObj):
    def __init__(self, data, dims, node=None, leaf=None, reduced=None):
        HostObj.__init__(self, "torch.Tensor", {})
        self.data, self.dims = data, tuple(dims)
        self.node, self.leaf, self.reduced = node, leaf, reduced
        self.attrs["binop"] = binop
        self.attrs["compare"] = compare
        self.attrs["__array__"] = lambda it: to_numpy(self)
        self.attrs["__neg__"] = HostFunc("neg", lambda i, a, k: unary(
            "USub", lambda x: -x, self))
        self.attrs["__pos__"] = HostFunc("pos", lambda i, a, k: self)
        self.attrs["__getitem__"] = HostFunc("getitem", lambda i, a, k: getitem(self, a[0]))
        self.attrs["instance"] = "Tensor"
        self.attrs["__len__"] = HostFunc("len", lambda i, a, k: self.dims[0])
        self.getter = tgetattr

    @property
    def requires(self):
        return self.node is not None or self.leaf is not None

    @property
    def leaves(self):
        if self.leaf is not None:
            return frozenset([self.leaf])
        return self.node.leaves if self.node is not None else frozenset()


BACK = {}       # leaf atom -> original value


def from_array(a):
    a = npm.as_arr(a)
    d = np.empty(a.data.shape, dtype=object)
    for i in np.ndindex(*a.data.shape):
        d[i] = alg.topoly(npm.cast(a.data[i], "f"))
    return TTensor(d, a.dims)


def require_grad(t, flag=True):
    if flag is False:
        if t.node is not None:
            raise AbsRaise("RuntimeError", "you can only change requires_grad flags of leaf "
                           "variables")
        return t
    if t.node is not None or t.leaf is not None:
        return t
    t.leaf = Leaf(t, t.data)
    t.data = t.leaf.data
    BACK.update(t.leaf.back)
    return t


def plain(p):
    for _ in range(4):
        m = {i: BACK[i] for i in p.atoms(deep=True) if i in BACK}
        if not m:
            return p
        p = alg.subst(p, m)
    return p


def to_numpy(t, force=False):
    if t.requires and not force:
        raise AbsRaise("RuntimeError", "Can't call numpy() on Tensor that requires grad. Use "
                       "tensor.detach().numpy() instead.")
    if t.reduced is not None:
        raise Unsupported("value of a summed tensor")
    d = np.empty(t.data.shape, dtype=object)
    for i in np.ndindex(*t.data.shape):
        d[i] = plain(alg.topoly(t.data[i]))
    return AArray(d, t.dims, "f", site=npm.CUR.site())


def as_t(x):
    if isinstance(x, TTensor):
        if x.reduced is not None:
            raise Unsupported("arithmetic with a summed tensor")
        return x
    if isinstance(x, AArray) or npm.is_scalar(x):
        return from_array(x)
    raise AbsRaise("TypeError", "unsupported operand type(s) for Tensor: %r" % (x,))


def combine(op, fn, *ts):
    ts = [as_t(x) for x in ts]
    r = npm.elementwise(lambda *a: fn(*[alg.topoly(x) for x in a]),
                        [AArray(t.data, t.dims, "f") for t in ts], "f")
    r = npm.as_arr(r)
    parents = [t for t in ts if t.requires]
    node = None
    if parents and grad_enabled():
        leaves = frozenset().union(*[t.leaves for t in parents])
        node = Node(op, [t.node if t.node is not None else t.leaf for t in parents], leaves)
    return TTensor(r.data, r.dims, node)


def grad_enabled():
    return not getattr(npm.CUR, "torch_nograd", 0)


FN = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": lambda x, y: x * y,
      "Div": lambda x, y: x / y, "Pow": lambda x, y: x ** y}


def binop(it, op, a, b):
    if isinstance(a, AArray):
        raise AbsRaise("TypeError", "unsupported operand type(s) for %s: 'numpy.ndarray' and "
                       "'Tensor'" % op)
    if op not in FN:
        raise Unsupported("tensor operation %s" % op)
    return combine(op, FN[op], a, b)


def compare(op, a, b):
    """An element-wise comparison: a mask."""
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return op == "NotEq"

    def values(x):
        x = as_t(x)
        d = np.empty(x.data.shape, dtype=object)
        for i in np.ndindex(*x.data.shape):
            d[i] = plain(alg.topoly(x.data[i]))
        return AArray(d, x.dims, "f")
    return npm.compare(op, values(a), values(b))


def unary(op, fn, t):
    return combine(op, fn, t)


def getitem(t, i):
    r = npm.getitem(AArray(t.data, t.dims, "f"), i)
    r = npm.as_arr(r)
    node = Node("index", [t.node if t.node is not None else t.leaf], t.leaves) \
        if t.requires else None
    return TTensor(r.data, r.dims, node)


def total(t, a, k):
    if a or k:
        return along(t, *a, **k)
    if not t.dims:
        return combine("sum", lambda x: x, t)
    node = Node("sum", [t.node if t.node is not None else t.leaf], t.leaves) \
        if t.requires else None
    return TTensor(np.array(alg.ZERO, dtype=object), (), node, reduced=t)


def along(t, dim=None, keepdim=False, axis=None, mean=False, dtype=None):
    """Sum or mean along axes of known length."""
    dim = axis if dim is None else dim
    if dtype is not None or dim is None or t.reduced is not None:
        raise Unsupported("sum of a tensor along an axis")
    ax = sorted({int(x) % len(t.dims) for x in (dim if isinstance(dim, (tuple, list))
                                                 else [dim])}) if t.dims else []
    if any(not isinstance(t.dims[x], int) for x in ax):
        raise Unsupported("sum of a tensor along an axis of any length")
    d = t.data
    count = 1
    for x in reversed(ax):
        count *= t.dims[x]
        e = np.empty(d.shape[:x] + d.shape[x + 1:], dtype=object)
        for i in np.ndindex(*e.shape):
            e[i] = sum((alg.topoly(d[i[:x] + (j,) + i[x:]]) for j in range(d.shape[x])),
                       alg.ZERO)
        d = e
    if mean:
        f = alg.const(1) / alg.const(count)
        e = np.empty(d.shape, dtype=object)
        for i in np.ndindex(*d.shape):
            e[i] = alg.topoly(d[i]) * f
        d = e
    dims = [x for k, x in enumerate(t.dims) if k not in ax]
    if keepdim:
        d = np.expand_dims(d, tuple(ax))
        dims = [1 if k in ax else x for k, x in enumerate(t.dims)]
    node = Node("sum", [t.node if t.node is not None else t.leaf], t.leaves) \
        if t.requires else None
    return TTensor(d, dims, node)


def paths(n, leaf, memo):
    """Nodes of the graph below n which lead to the leaf."""
    if isinstance(n, Leaf):
        return n is leaf
    if id(n) in memo:
        return memo[id(n)] is not None
    if leaf not in n.leaves:
        memo[id(n)] = None
        return False
    found = [paths(p, leaf, memo) for p in n.parents]
    memo[id(n)] = n if any(found) else None
    return any(found)


def autograd(it, a, k):
    names = ["outputs", "inputs", "grad_outputs", "retain_graph", "create_graph",
             "only_inputs", "allow_unused", "is_grads_batched", "materialize_grads"]
    args = dict(zip(names, a))
    args.update(k)
    outs, ins = args["outputs"], args["inputs"]
    outs = list(outs) if isinstance(outs, (list, tuple)) else [outs]
    ins = list(ins) if isinstance(ins, (list, tuple)) else [ins]
    gos = args.get("grad_outputs")
    gos = list(gos) if isinstance(gos, (list, tuple)) else [gos] * len(outs)
    create = bool(args.get("create_graph") or False)
    retain = args.get("retain_graph")
    retain = create if retain is None else bool(retain)
    allow = args.get("allow_unused")
    mat = bool(args.get("materialize_grads"))
    allow = mat if allow is None else bool(allow)
    res = [None] * len(ins)
    touched = []
    for o, go in zip(outs, gos):
        if not isinstance(o, TTensor):
            raise AbsRaise("TypeError", "grad of %r" % (o,))
        if not o.requires:
            raise AbsRaise("RuntimeError", "element 0 of tensors does not require grad and "
                           "does not have a grad_fn")
        src = o.reduced if o.reduced is not None else o
        weight = None
        if go is not None:
            go = as_t(go)
            if o.reduced is None:
                weight = npm.elementwise(lambda x, y: x, [
                    AArray(go.data, go.dims, "f"), AArray(o.data, o.dims, "f")], "f")
                weight = npm.as_arr(weight).data
            else:
                raise Unsupported("weighted gradient of a sum")
        elif o.reduced is None and any(d != 1 for d in o.dims):
            raise AbsRaise("RuntimeError", "grad can be implicitly created only for scalar "
                           "outputs")
        memo_all = {}
        for j, x in enumerate(ins):
            if not isinstance(x, TTensor) or not x.requires:
                raise AbsRaise("RuntimeError", "One of the differentiated Tensors does not "
                               "require grad")
            if x.leaf is None:
                raise Unsupported("gradient with respect to an intermediate result")
            top = o.node if o.node is not None else o.leaf
            memo = {}
            if not paths(top, x.leaf, memo):
                continue
            for n in memo.values():
                if n is not None:
                    memo_all[id(n)] = n
            d = np.empty(x.data.shape, dtype=object)
            mixes = src.data.shape != x.data.shape
            try:
                shape = np.broadcast_shapes(src.data.shape, x.data.shape)
            except ValueError:
                shape = None
            if shape != x.data.shape or (mixes and src.data.ndim != 0):
                # every element of the result may depend on every element of the variable
                if weight is not None or any(not isinstance(m, int) for m in
                                             list(src.dims) + list(x.dims)):
                    raise Unsupported("gradient of a broadcast variable")
                for i in np.ndindex(*d.shape):
                    d[i] = sum((alg.diff(alg.topoly(y), x.leaf.atoms[i])
                                for y in src.data.ravel()), alg.ZERO)
                res[j] = (d, x, [n for n in memo.values() if n is not None])
                continue
            sd = np.broadcast_to(src.data, shape)
            for i in np.ndindex(*shape):
                g = alg.diff(alg.topoly(sd[i]), x.leaf.atoms[i])
                if weight is not None:
                    g = g * np.broadcast_to(weight, shape)[i]
                d[i] = g
            if res[j] is not None:
                raise Unsupported("several outputs")
            res[j] = (d, x, [n for n in memo.values() if n is not None])
        for n in memo_all.values():
            if n.saved and n.freed:
                raise AbsRaise("RuntimeError", "Trying to backward through the graph a second "
                               "time (or directly access saved tensors after they have "
                               "already been freed)")
        touched += memo_all.values()
    if not retain:
        for n in touched:
            n.freed = True
    final = []
    for j, r in enumerate(res):
        if r is None:
            if not allow:
                raise AbsRaise("RuntimeError", "One of the differentiated Tensors appears to "
                               "not have been used in the graph. Set allow_unused=True if "
                               "this is the desired behavior.")
            final.append(TTensor(np.vectorize(lambda z: alg.ZERO, otypes=[object])(
                ins[j].data), ins[j].dims) if mat else None)
            continue
        d, x, trace = r
        node = None
        if create:
            used = set()
            for p in d.ravel():
                used |= set(p.atoms(deep=True))
            lv = [lf for o in outs for lf in o.leaves if used & set(lf.back)]
            if lv:
                # the derivative is computed from tensors kept by the nodes it passes
                kept = [y for n in trace if n.saved for y in
                        (n.parents if n.op == "Mult" else [n] + list(n.parents))
                        if isinstance(y, Node) and y.leaves & set(lv)]
                node = Node("backward", list(dict.fromkeys(lv + kept)), lv)
        final.append(TTensor(d, x.dims, node))
    return tuple(final)


COMPARE = {"ne": "NotEq", "eq": "Eq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE"}


def backward(t, it, a, k):
    r = [lf for lf in t.leaves]
    gs = autograd(it, [t, [lf.tensor for lf in r]], {
        "retain_graph": k.get("retain_graph"), "create_graph": k.get("create_graph", False)})
    for lf, g in zip(r, gs):
        old = lf.tensor.attrs.get("grad")
        lf.tensor.attrs["grad"] = g if old is None else combine("Add", FN["Add"], old, g)


def tgetattr(it, t, name):
    def m(f):
        return HostFunc("Tensor." + name, f)
    if name == "grad_fn":
        return HostObj("grad_fn") if t.node is not None else None
    if name == "requires_grad":
        return t.requires
    if name == "is_leaf":
        return t.node is None
    if name == "grad":
        return None
    if name == "shape":
        return t.dims
    if name in ("ndim",):
        return len(t.dims)
    if name == "size":
        return m(lambda i, a, k: t.dims if not a else t.dims[a[0]])
    if name == "dim":
        return m(lambda i, a, k: len(t.dims))
    if name == "dtype":
        return FLOAT
    if name == "device":
        return "cpu"
    if name == "requires_grad_":
        return m(lambda i, a, k: require_grad(t, *(a or [k.get("requires_grad", True)])))
    if name == "mean":
        return m(lambda i, a, k: along(t, *(a or [tuple(range(len(t.dims)))] if not k else a),
                                       mean=True, **k))
    if name == "sum":
        return m(lambda i, a, k: total(t, a, k))
    if name in ("detach",):
        return m(lambda i, a, k: TTensor(t.data, t.dims, reduced=t.reduced))
    if name in ("clone", "contiguous"):
        return m(lambda i, a, k: combine("clone", lambda x: x, t))
    if name in ("cpu", "float", "double", "to", "type"):
        return m(lambda i, a, k: t)
    if name == "numpy":
        return m(lambda i, a, k: to_numpy(t, k.get("force", False)))
    if name == "item":
        return m(lambda i, a, k: plain(t.data[()]))
    if name in FUNCS:
        return m(lambda i, a, k: FUNCS[name](t, *a, **k))
    if name == "backward":
        return m(lambda i, a, k: backward(t, i, a, k))
    if name == "T":
        raise Unsupported("Tensor.T")
    if name in ("any", "all"):
        return m(lambda i, a, k: i.call(npm.array_attr(i, compare("NotEq", t, 0), name), a, k))
    if name in COMPARE:
        return m(lambda i, a, k: compare(COMPARE[name], t, a[0]))
    if name in ("astype", "copy", "fill", "nonzero_"):
        raise AbsRaise("AttributeError", "'Tensor' object has no attribute '%s'" % name)
    raise Unsupported("Tensor.%s" % name)


def _app(n, pos=False):
    return lambda t: unary(n, lambda x: alg.app(n, x, pos=pos), t)


def half():
    from fractions import Fraction
    return alg.const(Fraction(1, 2))


FUNCS = {
    "exp": _app("exp", True), "log": _app("log"), "sin": _app("sin"), "cos": _app("cos"),
    "sqrt": lambda t: unary("sqrt", lambda x: x ** half(), t),
    "square": lambda t: unary("square", lambda x: x ** 2, t),
    "reciprocal": lambda t: unary("reciprocal", lambda x: x ** -1, t),
    "pow": lambda t, e: combine("Pow", FN["Pow"], t, e),
    "add": lambda t, e: combine("Add", FN["Add"], t, e),
    "sub": lambda t, e: combine("Sub", FN["Sub"], t, e),
    "mul": lambda t, e: combine("Mult", FN["Mult"], t, e),
    "multiply": lambda t, e: combine("Mult", FN["Mult"], t, e),
    "div": lambda t, e: combine("Div", FN["Div"], t, e),
    "neg": lambda t: unary("USub", lambda x: -x, t),
    "abs": lambda t: unary("abs", lambda x: x if below(alg.ZERO, x) else -x, t),
    "clamp": lambda t, min=None, max=None: unary("clamp", lambda x: (
        alg.topoly(min) if min is not None and below(x, alg.topoly(min)) else
        alg.topoly(max) if max is not None and below(alg.topoly(max), x) else x), t),
}
FUNCS["clip"] = FUNCS["clamp"]
FUNCS["absolute"] = FUNCS["abs"]


def below(a, b):
    return npm.CUR.decide(npm.c_lt0(alg.topoly(a) - alg.topoly(b)))

FLOAT = HostObj("torch.dtype")
TENSOR = TypeTok("Tensor", lambda x: isinstance(x, TTensor))


def new_tensor(it, a, k):
    x = a[0] if a else []
    if isinstance(x, TTensor):
        return TTensor(x.data, x.dims)
    if isinstance(x, AArray) or isinstance(x, (list, tuple)):
        return from_array(x)
    if npm.is_scalar(x):
        raise AbsRaise("TypeError", "new(): data must be a sequence (got a number)")
    raise AbsRaise("TypeError", "new(): data must be a sequence (got %r)" % (x,))


TENSOR.call = new_tensor


def make_tensor(it, a, k):
    x = a[0] if a else k["data"]
    if isinstance(x, TTensor):
        t = TTensor(x.data, x.dims)
    elif isinstance(x, (AArray, list, tuple)) or npm.is_scalar(x):
        t = from_array(x)
    else:
        raise AbsRaise("TypeError", "Could not infer dtype of %r" % (x,))
    if k.get("requires_grad"):
        require_grad(t)
    return t


def from_numpy(it, a, k):
    if not isinstance(a[0], AArray):
        raise AbsRaise("TypeError", "expected np.ndarray")
    return from_array(a[0])


def like(v):
    def f(it, a, k):
        t = a[0]
        d = np.empty(t.data.shape, dtype=object)
        d.fill(alg.const(v))
        return TTensor(d, t.dims)
    return f


class NoGrad(HostObj):
    pass


def module(it):
    from .interp import Module
    H = HostFunc

    def event(n):
        def f(i, a, k):
            i.events.append((n, a, k, i.site()))
        return f

    ns = {
        "Tensor": TENSOR, "FloatTensor": TENSOR, "DoubleTensor": TENSOR,
        "tensor": H("torch.tensor", make_tensor),
        "as_tensor": H("torch.as_tensor", make_tensor),
        "asarray": H("torch.asarray", make_tensor),
        "from_numpy": H("torch.from_numpy", from_numpy),
        "is_tensor": H("torch.is_tensor", lambda i, a, k: isinstance(a[0], TTensor)),
        "get_default_dtype": H("torch.get_default_dtype", lambda i, a, k: FLOAT),
        "float64": FLOAT, "float32": FLOAT, "double": FLOAT, "float": FLOAT,
        "ones_like": H("torch.ones_like", like(1)),
        "zeros_like": H("torch.zeros_like", like(0)),
        "sum": H("torch.sum", lambda i, a, k: total(a[0], a[1:], k)),
        "set_default_dtype": H("set_default_dtype", event("torch.set_default_dtype")),
        "set_num_threads": H("set_num_threads", event("torch.set_num_threads")),
        "manual_seed": H("manual_seed", event("torch.manual_seed")),
        "set_grad_enabled": H("set_grad_enabled", event("torch.set_grad_enabled")),
        "set_default_tensor_type": H("x", event("torch.set_default_tensor_type")),
        "enable_grad": H("torch.enable_grad", lambda i, a, k: HostObj("ctx")),
    }
    for n, f in FUNCS.items():
        ns[n] = H("torch." + n, lambda i, a, k, f=f: f(as_t(a[0]), *a[1:]))
    ag = Module("torch.autograd", ns={"grad": H("torch.autograd.grad", autograd)},
                getter=missing("torch.autograd"))
    ns["autograd"] = ag
    it.modules["torch.autograd"] = ag
    return Module("torch", ns=ns, getter=missing("torch"))


def missing(m):
    def g(n):
        raise Unsupported("%s.%s" % (m, n))
    return g


def opaque(name, deps, it=None):
    """A user energy with unknown dependence on the given invariants."""
    def f(i, a, k):
        ts = [a[d] for d in deps]
        return combine("opaque", lambda *x: alg.app(name, *x), *ts)
    return HostFunc("user energy " + name, f)


def with_source(project, src, name="user_energies"):
    """The analysed project together with a module of user code."""
    p = copy.copy(project)
    p.trees = dict(project.trees)
    p.paths = dict(project.paths)
    p.sources = dict(project.sources)
    p.trees[name] = ast.parse(src, "<%s>" % name)
    p.paths[name] = ("<%s>" % name, False)
    p.sources[name] = src
    return p
