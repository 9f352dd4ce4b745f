"""Stand-ins for user-supplied constitutive models: they record what they are given and
answer with opaque responses, so that a result about them holds for every model."""

import numpy as np

from . import alg, npm
from .absval import AArray, HostFunc, HostObj, dlen, floating, input_array

PAIRS = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]


class Token:
    """An opaque state-variable value."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def token(name):
    return HostObj(name, {})


def field(name, trax, kind="array"):
    """A response value: an array over the trailing axes, a plain number, or an array with
    unit axes."""
    if kind == "integer" and trax:
        return input_array(name, trax, dtype="i")
    if kind == "number" or not trax:
        return alg.var(name)
    if kind == "unit":
        with floating():
            return input_array(name, (1,) * len(trax), names=lambda i: name)
    with floating():
        return input_array(name, trax)


def value(x, pt):
    """Value of a response at a trailing point."""
    if x is None:
        return alg.ZERO
    if isinstance(x, AArray):
        ts = x.data.shape
        pt = pt[len(pt) - len(ts):] if ts else ()
        return x.data[tuple(0 if n == 1 else p for n, p in zip(ts, pt))]
    return alg.topoly(x)


def copied(x):
    if isinstance(x, AArray):
        return AArray(np.array(x.data, dtype=object), x.dims, x.dtype)
    return type(x)(copied(y) for y in x) if type(x) in (list, tuple) else x


class Stub:
    def __init__(self, name):
        self.name = name
        self.calls = []
        self.seen = []

    def log(self, what, args, it):
        self.calls.append((what, args, it.site()))
        # the values at the time of the call
        self.seen.append((what, {k: copied(v) for k, v in args.items()
                                 if k != "statevars"}, it.site()))


def invariants_material(trax, first=(1, 1, 1), second=(1,) * 6, kind="array", prefix="",
                        seq=tuple):
    """Material psi(I1, I2, I3); entries of `first`/`second` select None."""
    st = Stub("invariants material")
    st.g = [field("%sg%d" % (prefix, k + 1), trax, kind) if first[k] else None
            for k in range(3)]
    st.h = [field("%sh%d%d" % (prefix, a + 1, b + 1), trax, kind) if second[k] else None
            for k, (a, b) in enumerate(PAIRS)]
    st.new = token("new state")

    def grad(it, a, k):
        st.log("gradient", bindargs(a, k, ["I1", "I2", "I3", "statevars"]), it)
        return seq(list(st.g) + [st.new])

    def hess(it, a, k):
        st.log("hessian", bindargs(a, k, ["I1", "I2", "I3", "statevars"]), it)
        return seq(st.h)

    st.obj = HostObj("material", {
        "gradient": HostFunc("material.gradient", grad),
        "hessian": HostFunc("material.hessian", hess)})
    return st


def bindargs(a, k, names):
    out = dict(zip(names, a))
    for i, x in k.items():
        # user-defined models may name the last argument differently
        out["statevars" if i.startswith("statevars") else i] = x
    return out


def stretches_material(trax, kind="array", as_list=True, none=(), pattern=(0, 1, 2),
                       prefix=""):
    """Material psi(lambda_1, lambda_2, lambda_3)."""
    st = Stub("stretches material")
    p = pattern
    # first derivatives come as values at every point; second ones may be plain numbers
    st.g = [field("%sg%d" % (prefix, p[k]), trax, "integer" if kind == "integer" else "array")
            for k in range(3)]

    def hname(a, b):
        x, y = sorted((p[a], p[b]))
        if a != b and x == y:
            return "%sh%d%do" % (prefix, x, y)
        return "%sh%d%d" % (prefix, x, y)

    st.h = [None if k in none else field(hname(a, b), trax, kind)
            for k, (a, b) in enumerate(PAIRS)]
    st.new = token("new state")

    def stack(xs):
        tshape = tuple(dlen(d) for d in trax)
        d = np.empty((len(xs),) + tshape, dtype=object)
        for k, x in enumerate(xs):
            for pt in np.ndindex(*tshape):
                d[(k,) + pt] = value(x, pt)
        return AArray(d, (len(xs),) + tuple(trax), "i" if kind == "integer" else "f")

    def grad(it, a, k):
        st.log("gradient", bindargs(a, k, ["stretches", "statevars"]), it)
        if as_list in (tuple, list):
            return (as_list(st.g), st.new)
        return [list(st.g) if as_list else stack(st.g), st.new]

    def hess(it, a, k):
        st.log("hessian", bindargs(a, k, ["stretches", "statevars"]), it)
        if as_list in (tuple, list):
            return as_list(st.h)
        return list(st.h) if as_list else stack(st.h)

    st.obj = HostObj("material", {
        "gradient": HostFunc("material.gradient", grad),
        "hessian": HostFunc("material.hessian", hess)})
    return st


def tensor_material(trax, gtrax=None, major=True, htrax=None, same=True,
                    prefix=""):
    """Framework psi(C): answers with dW/dC and d2W/dCdC in reduced storage."""
    from .inputs import mat, sym
    st = Stub("framework")
    gt = tuple(trax if gtrax is None else gtrax)
    with floating():
        st.g = sym(prefix + "g", gt)
        st.h = mat(prefix + "h", tuple(gt if htrax is None else htrax), major=major)
    st.new = token("new state")
    st.x = [token("x0"), token("initial state")]

    def grad(it, a, k):
        st.log("gradient", bindargs(a, k, ["C", "statevars"]), it)
        # the material may hand out arrays it keeps
        return (st.g if same else AArray(st.g.data.copy(), st.g.dims, "f"), st.new)

    def hess(it, a, k):
        st.log("hessian", bindargs(a, k, ["C", "statevars"]), it)
        return st.h if same else AArray(st.h.data.copy(), st.h.dims, "f")

    st.obj = HostObj("framework", {
        "gradient": HostFunc("framework.gradient", grad),
        "hessian": HostFunc("framework.hessian", hess), "x": st.x})
    return st


assert npm
