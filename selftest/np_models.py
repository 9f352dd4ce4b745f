"""Developer tool (not a check): compares the analyser's numpy models with numpy itself.

Every snippet is evaluated by numpy on numbers and by the abstract interpreter (a) on the same
numbers and (b) on symbols with a generic trailing axis, whose result is then evaluated at the
numbers.  Prints snippets whose results differ (model errors) or which have no model."""

import os
import sys
from fractions import Fraction

import numpy as np

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from hlint import alg, libs, npm, torchlib  # noqa: E402
from hlint.absval import (AArray, AbsRaise, ATOM_DIMS, Cond, Dim, TypeTok,  # noqa: E402
                          input_array)
from hlint.interp import Project, explore, Interp  # noqa: E402

INEXACT = ("floor", "ceil", "trunc", "rint", "round", "cast", "mod", "fmod", "int", "floordiv",
           "arctan2", "sort", "eigvals", "dimsum", "nan", "const", "log10", "log2")
P = Project(os.environ.get("HLINT_REPO", "/repo") + "/src")
rng = np.random.default_rng(3)
N = Dim("n")
NN = 2
ARGS = {"v": (6,), "w": (6,), "u": (3,), "M": (3, 3), "K": (3, 3), "Q": (6, 6), "s": (),
        "T4": (3, 3, 3, 3)}


def frac(shape, lo=-9, hi=9):
    d = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        d[i] = Fraction(int(rng.integers(lo, hi + 1)) * 2 + 1, 8)
    return d


def numbers(trail):
    vals = {k: frac(s + trail) for k, s in ARGS.items()}
    vals["p"] = abs(frac((3,) + trail)) + 1
    vals["i"] = rng.integers(-5, 6, (3, 3) + trail).astype(object)
    return vals


def to_np(name, d):
    return d.astype(int) if name == "i" else d.astype(float)


def conc(d, kind):
    o = np.empty(d.shape, dtype=object)
    for j in np.ndindex(*d.shape):
        o[j] = int(d[j]) if kind == "i" else alg.topoly(d[j])
    return AArray(o, d.shape, kind)


def same(r, a, pt, pos, path=""):
    """Compare numpy's result with the abstract one at trailing point pos."""
    if isinstance(r, (tuple, list)) or (isinstance(a, (tuple, list))):
        if not isinstance(a, (tuple, list)) or len(a) != len(r):
            return "%s: structure %r / %r" % (path, type(r), a)
        for k, (x, y) in enumerate(zip(r, a)):
            e = same(x, y, pt, pos, path + "[%d]" % k)
            if e:
                return e
        return None
    if isinstance(r, (str, type(None))):
        return None if r == a else "%s: %r / %r" % (path, r, a)
    if isinstance(r, np.dtype):
        return None
    kind = None
    if isinstance(a, AArray):
        dims = a.dims
        kind = a.dtype
        data = a.data
    else:
        dims = ()
        data = np.empty((), dtype=object)
        data[()] = a
    if callable(r) or isinstance(r, slice):
        return None
    rr = np.asarray(r)
    if kind is not None and isinstance(r, (np.ndarray, np.generic)):
        k2 = {"f": "f", "i": "i", "b": "b", "u": "i", "c": "c"}.get(rr.dtype.kind)
        if k2 != kind:
            return "%s: dtype %s / %s" % (path, rr.dtype, kind)
    if len(dims) != rr.ndim:
        return "%s: ndim %s / %s" % (path, rr.shape, dims)
    idx = []
    for d, x in zip(dims, rr.shape):
        if isinstance(d, Dim):
            if d is not N:
                return "skip"
            if x != NN:
                return "%s: dims %s / %s" % (path, rr.shape, dims)
            idx.append(slice(pos, pos + 1))
        else:
            if x != d:
                return "%s: dims %s / %s" % (path, rr.shape, dims)
            idx.append(slice(None))
    rr = rr[tuple(idx)]
    for j in np.ndindex(*rr.shape):
        y = data[j]
        if isinstance(y, Cond):
            return "skip"
        if isinstance(y, TypeTok):
            return None
        if isinstance(y, Dim):
            y = y.poly
        if isinstance(y, alg.Poly) and any(
                (alg.ATOMS[q].kind == "v" or alg.ATOMS[q].kind == "f" and alg.ATOMS[q].payload[0]
                 in INEXACT) and q not in pt.val for q in y.atoms(deep=True)):
            return "skip"
        y = pt.poly(alg.topoly(y)) if not isinstance(y, bool) else y
        if hasattr(y, "imag") and y.imag:
            return "skip"
        x = rr[j]
        if isinstance(x, complex):
            return "skip"
        if not (abs(float(x) - float(y)) <= 1e-9 * max(1.0, abs(float(x)))) and not (
                np.isnan(x) and np.isnan(float(y))):
            return "%s: value %r / %s at %s" % (path, x, y, j)
    return None


def real(src, args):
    ns = {}
    exec(src, ns)
    with np.errstate(all="ignore"):
        try:
            return ns["f"](**args), None
        except Exception as e:
            return None, e


def abstract(src, args, decisions=None):
    pr = torchlib.with_source(P, src, "snippet")

    def make(dec):
        it = Interp(pr, dec, libs.default())
        npm.CUR = it
        return it

    def entry(it):
        m = it.load("snippet")
        return it.call(m.ns["f"], [], dict(args))
    return list(explore(make, entry, 64))


def names(body):
    import re
    return [k for k in list(ARGS) + ["p", "i"] if re.search(r"(?<![\w.\"'])%s(?![\w\"'(=])" % k, body)]


def run(body, verbose=False):
    used = names(body)
    lines = body.split(";")
    lines = [x.strip() for x in lines]
    if not lines[-1].startswith("return"):
        lines[-1] = "return " + lines[-1]
    src = "import numpy as np\n\ndef f(%s):\n    %s\n" % (", ".join(used), "\n    ".join(lines))
    out = []
    for trail in ((), (NN,)):
        vals = numbers(trail)
        nargs = {k: to_np(k, vals[k]) for k in used}
        R, e = real(src, nargs)
        kindof = {k: "i" if k == "i" else "f" for k in used}
        # concrete
        aargs = {k: conc(vals[k], kindof[k]) for k in used}
        ps = abstract(src, aargs)
        out.append(("C%s" % (trail,), verdict(ps, R, e, alg_point({}), 0)))
        out.append(("A%s" % (trail,), aliases(ps, R, e, nargs, aargs)))
        # symbolic
        if trail:
            sy = {k: input_array("z_" + k, (ARGS.get(k) or ((3, 3) if k == "i" else (3,) if k == "p"
                                                             else ())) + (N,),
                                 pos=True if k == "p" else (), dtype=kindof[k]) for k in used}
            aargs = {k: AArray(v.data.copy(), v.dims, v.dtype) for k, v in sy.items()}
            ps = abstract(src, aargs)
            out.append(("AS", aliases(ps, R, e, nargs, aargs)))
            for pos in range(NN):
                g = {}
                for k, a in sy.items():
                    for j in np.ndindex(*a.data.shape):
                        g[a.data[j].is_var().idx] = vals[k][j[:-1] + (pos,)]
                out.append(("S%d" % pos, verdict(ps, R, e, alg_point(g), pos)))
    return out


def alg_point(g):
    pt = alg.Point(1)
    pt.val[N.poly.is_var().idx] = pt.mp.mpf(NN)
    pt.val[alg.var("pi", pos=True).is_var().idx] = pt.mp.pi
    for i, x in g.items():
        x = Fraction(x)
        pt.val[i] = pt.mp.mpf(x.numerator) / x.denominator
    return pt


def verdict(ps, R, e, pt, pos):
    if len(ps) != 1:
        if any(p.unsupported for p in ps):
            return "UNSUPPORTED " + str(next(p.unsupported for p in ps if p.unsupported))[:90]
        return "skip (%d partitions)" % len(ps)
    p = ps[0]
    if p.unsupported:
        return "UNSUPPORTED " + str(p.unsupported)[:90]
    if p.error is not None:
        if e is None:
            return "DIFF raises %s %s" % (p.error.etype, p.error.msg)
        if type(e).__name__ != p.error.etype and p.error.etype not in [
                c.__name__ for c in type(e).__mro__]:
            return "DIFF raises %s, numpy %r" % (p.error.etype, e)
        return None
    if e is not None:
        return "DIFF no error, numpy raises %r" % e
    try:
        d = same(R, p.value, pt, pos)
    except ZeroDivisionError:
        return "skip"
    return None if d in (None, "skip") else "DIFF " + d


def aliases(ps, R, e, nargs, aargs):
    """Does the result share memory with the same arguments?"""
    if e is not None or len(ps) != 1 or ps[0].unsupported or ps[0].error is not None:
        return None

    def parts(x, t):
        if isinstance(x, (list, tuple)):
            return [z for y in x for z in parts(y, t)]
        return [x] if isinstance(x, t) else [None]
    r, a = parts(R, np.ndarray), parts(ps[0].value, AArray)
    if len(r) != len(a):
        return None
    for x, y in zip(r, a):
        for k in nargs:
            u = x is not None and x.size and np.shares_memory(x, nargs[k])
            v = y is not None and y.data.size and np.shares_memory(y.data, aargs[k].data)
            if bool(u) != bool(v):
                return "DIFF aliasing of the result and %s: numpy %s, model %s" % (k, u, v)
        if x is not None and y is not None and x.flags.writeable == bool(y.readonly):
            return "DIFF writeable: numpy %s" % x.flags.writeable
    return None


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    todo = [x.strip() for x in open(os.path.join(here, "snippets.txt"))]
    todo = [x for x in todo if x and not x.startswith("#")]
    sel = sys.argv[1:]
    n = bad = uns = 0
    for body in todo:
        if sel and not any(x in body for x in sel):
            continue
        n += 1
        try:
            res = run(body)
        except Exception as e:  # noqa: BLE001
            import traceback
            res = [("?", "CRASH %r %s" % (e, traceback.format_exc().strip().split("\n")[-3:]))]
        bads = [(k, r) for k, r in res if r and not r.startswith("skip")]
        if any(r.startswith(("DIFF", "CRASH")) for k, r in bads):
            bad += 1
            print("DIFF ", body, "|", [x for x in bads if not x[1].startswith("UNS")][0])
        elif bads:
            uns += 1
            print("UNSUP", body, "|", bads[0])
    print("%d snippets, %d differ, %d without a model" % (n, bad, uns))


if __name__ == "__main__":
    main()
