"""The lab: load cases, simulations, experiments, curve fits and their plots."""

import re

import numpy as np

from .. import alg
from .. import npm
from .. import oracle as O
from ..absval import (AArray, AbsRaise, Cond, Dim, HostFunc, HostObj, Recorder, dlen,
                      input_array)
from ..alg import topoly
from ..inputs import c, n, q, sized, tname
from ..libs import figure
from .behaviour import scribble
from .frameworks import INV, points
from .models import MODELS
from .spaces import SPACES

LAB = "hyperelastic.lab."
CASES = ("Uniaxial", "Planar", "Biaxial")
NAMES = {"Uniaxial": "Uniaxial Tension", "Planar": "Planar Tension",
         "Biaxial": "Biaxial Tension"}
D = [Dim("n%d" % k) for k in range(3)]
HALF = alg.ONE / 2


def principal(case, x):
    """Principal stretches of the incompressible load cases."""
    one = alg.ONE
    if case == "Uniaxial":
        return [x, one / x ** HALF.as_const(), one / x ** HALF.as_const()]
    if case == "Planar":
        return [x, one, one / x]
    return [x, x, one / x ** 2]


def defgrad_at(case, x):
    lam = principal(case, x)
    F = O.obj((3, 3))
    for i in range(3):
        F[i, i] = lam[i]
    return F


def stretch(name, dims, **kw):
    return input_array(name, dims, pos=True, **kw)


# -- load cases ------------------------------------------------------------------------------


def loadcases(chk):
    """C40: kinematics of the incompressible load cases."""
    def run(s, case, t, kind):
        lc = s.call(LAB + case)
        where = s.where_of(s.it.getattr(lc, "defgrad"))
        if kind == "number":
            x = alg.var("x", pos=True)
            r = s.method(lc, "defgrad", x)
            s.array(r, (3, 3), (), lambda p: defgrad_at(case, x), "defgrad", where=where)
            return
        x = stretch("x", t, dtype="i" if kind == "integer" else "f")
        g = s.guard(x)
        r = s.method(lc, "defgrad", x)
        s.array(r, (3, 3), t, lambda p: defgrad_at(case, topoly(x.data[p])), "defgrad",
                where=where)
        s.untouched(g, "input", ["the stretches"])
        if kind == "again":
            keep = r.data.copy()
            y = stretch("y", t)
            r2 = s.method(lc, "defgrad", y)
            s.array(r2, (3, 3), t, lambda p: defgrad_at(case, topoly(y.data[p])), "again",
                    where=where)
            s.require(all(a is b or a == b for a, b in zip(keep.ravel(), r.data.ravel())),
                      "kept", "a second evaluation modifies the first deformation gradient",
                      where)
            scribble([r, r2], [])
            s.array(s.method(lc, "defgrad", y), (3, 3), t, lambda p: defgrad_at(
                case, topoly(y.data[p])), "after-writing", where=where)
            s.untouched(g, "written", ["the stretches"])

    for case in CASES:
        for t in dict.fromkeys([(n,), (q, c), (1, n), (1,)] + sized(chk)):
            chk.scenario("defgrad-%s[%s]" % (case, tname(t)),
                         lambda s, case=case, t=t: run(s, case, t, "array"))
        for kind in ("integer", "number", "again"):
            chk.scenario("defgrad-%s-%s" % (case, kind),
                         lambda s, case=case, kind=kind: run(s, case, (n,), kind))

        def label(s, case=case):
            lc = s.call(LAB + case)
            where = s.where_of(lc)
            s.require(s.it.getattr(lc, "label") == NAMES[case], "label",
                      "the default label is %r" % s.it.getattr(lc, "label"), where)
            for args, kw in (([], {"label": "mine"}), (["mine"], {})):
                lc = s.call(LAB + case, *args, **kw)
                s.require(s.it.getattr(lc, "label") == "mine", "own-label",
                          "the given label is replaced by %r" % s.it.getattr(lc, "label"),
                          where)
        chk.scenario("label-%s" % case, label)


def loadstress(chk):
    """C41: stresses of the load cases against the virtual work."""
    def fields(t):
        return input_array("F", (3, 3) + t, pos={(i, i) + p for i in range(3)
                                                 for p in points(t)}), \
            input_array("P", (3, 3) + t)

    def want(F, P, p, i, j):
        F, P = F.data[(slice(None), slice(None)) + p], P.data[(slice(None), slice(None)) + p]
        return topoly(P[i, i]) - topoly(P[j, j]) * topoly(F[j, j]) / topoly(F[i, i])

    def run(s, case, t, args, kw, i, j):
        lc = s.call(LAB + case) if case != "IncompressibleHomogeneousStretch" else \
            s.call(LAB + case)
        F, P = fields(t)
        g = s.guard(F, P)
        r = s.method(lc, "stress", F, P, *args, **kw)
        where = s.where_of(s.it.getattr(lc, "stress"))
        s.array(r, (), t, lambda p: want(F, P, p, i, j), "stress", where=where)
        s.untouched(g, "input", ["F", "P"])

    for case in CASES + ("IncompressibleHomogeneousStretch",):
        for t in [(n,), (), (q, c), (1, 1)] + sized(chk):
            chk.scenario("stress-%s-default[%s]" % (case, tname(t)),
                         lambda s, case=case, t=t: run(s, case, t, [], {}, 0, 2))
        for i in range(-3, 3):
            for j in range(-3, 3):
                if i % 3 == j % 3 or (case != "Uniaxial" and (i < 0 or j < 0)):
                    continue
                chk.scenario("stress-%s-axes%d%d" % (case, i, j),
                             lambda s, case=case, i=i, j=j: run(
                                 s, case, (n,), [], {"axis": i, "traction_free": j}, i, j))
        chk.scenario("stress-%s-positional" % case, lambda s, case=case: run(
            s, case, (n,), [1, 0], {}, 1, 0))
        chk.scenario("stress-%s-axis" % case, lambda s, case=case: run(
            s, case, (n,), [1], {}, 1, 2))

    # energy: the normal force per undeformed area is the derivative of the energy along
    # the load path (per loaded direction) for any material, and a pressure has no effect
    def energy(s, case):
        lc = s.call(LAB + case)
        t = (n,)
        x = stretch("x", t)
        F = s.method(lc, "defgrad", x)
        X = topoly(x.data[0])
        p = alg.var("pressure")
        S = [alg.var("S%d" % k) for k in range(3)]
        if case == "Uniaxial":
            S[2] = S[1]
        lam = principal(case, X)
        # P = F S + p F^-T
        d = O.obj((3, 3, 1))
        for k in range(3):
            d[k, k, 0] = lam[k] * S[k] + p / lam[k]
        if case == "Biaxial":
            # an isotropic response on equal stretches
            d[1, 1, 0] = d[0, 0, 0]
            S[1] = S[0]
        r = s.method(lc, "stress", F, AArray(d, (3, 3) + t, "f"))
        where = s.where_of(s.it.getattr(lc, "stress"))
        dl = [alg.diff(y, x.data[0].is_var().idx) for y in lam]
        W = sum((lam[k] * S[k] * dl[k] for k in range(3)), alg.ZERO)
        if case == "Biaxial":
            W = W / 2
        s.array(r, (), t, lambda pt: W, "energy", where=where)

    for case in CASES:
        chk.scenario("energy-%s" % case, lambda s, case=case: energy(s, case))


# -- simulations -------------------------------------------------------------------------------


class Mat:
    """A user's material function: records its parameters; its objects answer with opaque
    functions of the local deformation gradient and of the parameters by name."""

    def __init__(self, tag="P", drop=False):
        self.tag, self.built, self.calls, self.drop = tag, [], [], drop
        self.fail = None        # (type, message) of the failure it reports
        self.fn = HostFunc("material", self.build)

    def build(self, it, a, k):
        if self.fail:
            raise AbsRaise(*self.fail)
        k = dict(k)
        self.built.append((list(a), k, it.site()))

        def gradient(i, args, kw):
            x = args[0] if args else kw.get("x")
            self.calls.append((x, i.site()))
            F = x[0]
            return [self.response(F, k), x[-1]]
        return HostObj("umat", {"gradient": HostFunc("umat.gradient", gradient)})

    def value(self, F, i, j, k):
        return alg.app("%s%d%d" % (self.tag, i, j), *[topoly(y) for y in F.ravel()],
                       *[y for n_ in sorted(k) for y in (n_, topoly(k[n_]))])

    def response(self, F, k):
        d = np.empty(F.data.shape, dtype=object)
        for idx in np.ndindex(*F.data.shape):
            d[idx] = self.value(F.data[(slice(None), slice(None)) + idx[2:]], idx[0], idx[1],
                                k)
        return AArray(d, F.dims, "f")

    def stress(self, case, x, k):
        """Expected normal force per undeformed area at stretch x."""
        F = defgrad_at(case, topoly(x))
        P = lambda i: self.value(F, i, i, k)  # noqa: E731
        return P(0) - P(2) * F[2, 2] / F[0, 0]


def params(labels, tag="p"):
    return {y: alg.var(tag + "_" + y) for y in labels}


def simulation(chk):
    """C42: simulations of experiments."""
    LABELS = ["C10", "C01", "k"]

    def check_call(s, m, labels, values, x, case, where):
        """The material is built with each value under its label and evaluated once per
        point with the deformation gradient of the load case."""
        want = dict(zip(labels, values))
        s.require(len(m.built) >= 1, "built", "the material is not built", where)
        for a, k, site in m.built:
            s.require(not a and set(k) == set(want), "labels", "the material is built with "
                      "the arguments %s %s" % (a, sorted(k)), site)
            for y in want:
                if y in k:
                    s.same(topoly(k[y]), want[y], "parameter-" + y, site, "parameter " + y)
        for a, site in m.calls:
            ok = isinstance(a, (list, tuple)) and len(a) == 2 and isinstance(a[0], AArray)
            s.require(ok, "arguments", "the material is evaluated with %r" % (a,), site)

    def run(s, case, t, seq, how):
        m = Mat()
        lc = s.call(LAB + case)
        x = stretch("x", t)
        labels = list(LABELS)
        vals = [alg.var("p_" + y) for y in labels]
        kw = {}
        lab = labels
        if seq == "list":
            kw["parameters"] = list(vals)
        elif seq == "tuple":
            kw["parameters"], lab = tuple(vals), tuple(labels)
        elif seq == "array":
            a = np.empty(3, dtype=object)
            a[:] = vals
            kw["parameters"] = AArray(a, (3,), "f")
        elif seq == "views":
            dct = dict(zip(labels, vals))
            kw["parameters"], lab = dct.values(), dct.keys()
        else:
            vals = [alg.ONE] * 3
        sim = s.call(LAB + "Simulation", loadcase=lc, stretch=x, labels=lab,
                     material=m.fn, **kw)
        where = s.where_of(sim)
        k = dict(zip(labels, vals))
        guards = s.guard(x)
        if how == "stress":
            r = s.method(sim, "stress")
            y, kk = x, k
        else:
            y = stretch("y", (D[1],))
            other = [alg.var("o_" + z) for z in labels]
            kk = dict(zip(labels, other))
            r = s.method(sim, "stress_curve_fit", y, *other)
        total = y.data.ravel()
        td = (y.dims if len(y.dims) == 1 else None)
        if td is not None:
            s.array(r, (), td, lambda p: m.stress(case, y.data[p], kk), "stress", where=where)
        else:
            s.require(isinstance(r, AArray) and len(r.data.ravel()) == len(total), "shape",
                      "the stress has shape %s" % (getattr(r, "dims", None),), where)
        check_call(s, m, labels, [kk[z] for z in labels], y, case, where)
        if how != "stress":
            # the simulation itself keeps its stretches and parameters
            m.built.clear()
            m.calls.clear()
            r = s.method(sim, "stress")
            s.array(r, (), x.dims, lambda p: m.stress(case, x.data[p], k), "afterwards",
                    where=where)
        s.untouched(guards, "input", ["the stretches"])
        s.require(s.it.getattr(sim, "label") == NAMES[case], "label",
                  "the label is %r" % s.it.getattr(sim, "label"), where)

    for case in CASES:
        for seq in ("list", "tuple", "array", "views", "default"):
            for how in ("stress", "fit"):
                chk.scenario("simulation-%s-%s-%s" % (case, seq, how),
                             lambda s, case=case, seq=seq, how=how: run(
                                 s, case, (n,), seq, how))
        for t in [(1,), (3,), (9,)]:
            chk.scenario("simulation-%s[%s]" % (case, tname(t)),
                         lambda s, case=case, t=t: run(s, case, t, "list", "stress"))

    def repeated(s, case):
        """Other stretches, then other parameters, on one simulation (and another one)."""
        m = Mat()
        lc = s.call(LAB + case)
        labels = list(LABELS)
        mk = lambda q_: [alg.var("%s_%s" % (q_, z)) for z in labels]  # noqa: E731
        x = stretch("x", (n,))
        first = mk("p")
        sim = s.call(LAB + "Simulation", loadcase=lc, stretch=x, labels=labels,
                     material=m.fn, parameters=first)
        m2 = Mat("Q")
        other = s.call(LAB + "Simulation", loadcase=lc, stretch=x, labels=labels,
                       material=m2.fn, parameters=mk("r"))
        where = s.where_of(sim)
        scribble([s.method(sim, "stress")], [])
        ro = s.method(other, "stress")
        s.array(ro, (), (n,), lambda p: m2.stress(case, x.data[p], dict(zip(
            labels, mk("r")))), "other-simulation", where=where)
        for k, (name, tag) in enumerate([("y", "o"), ("z", "o"), ("z", "u"), ("y", "o")]):
            y = stretch(name, (n,))
            r = s.method(sim, "stress_curve_fit", y, *mk(tag))
            s.array(r, (), (n,), lambda p: m.stress(case, y.data[p], dict(zip(
                labels, mk(tag)))), "evaluation-%d" % (k + 1), where=where)
            scribble([r], [])
        # the same array with other values, other parameters of the simulation itself
        w = stretch("w", (n,))
        x.data[...] = w.data
        s.array(s.method(sim, "stress"), (), (n,), lambda p: m.stress(
            case, w.data[p], dict(zip(labels, first))), "same-array", where=where)
        s.it.setattr(sim, "parameters", mk("v"))
        s.array(s.method(sim, "stress"), (), (n,), lambda p: m.stress(
            case, w.data[p], dict(zip(labels, mk("v")))), "new-parameters", where=where)
        # other labels (of another material), another load case, other stretches
        labels2 = ["D1", "k"]
        vals = [alg.var("l_" + z) for z in labels2]
        s.it.setattr(sim, "labels", list(labels2))
        s.it.setattr(sim, "parameters", list(vals))
        m.built.clear()
        m.calls.clear()
        k2 = dict(zip(labels2, vals))
        s.array(s.method(sim, "stress"), (), (n,), lambda p: m.stress(
            case, w.data[p], k2), "new-labels", where=where)
        check_call(s, m, labels2, vals, w, case, where)
        m3 = Mat("R")
        s.it.setattr(sim, "material", m3.fn)
        s.array(s.method(sim, "stress"), (), (n,), lambda p: m3.stress(
            case, w.data[p], k2), "new-material", where=where)
        case3 = CASES[(list(CASES).index(case) + 1) % len(CASES)]
        s.it.setattr(sim, "loadcase", s.call(LAB + case3))
        s.array(s.method(sim, "stress"), (), (n,), lambda p: m3.stress(
            case3, w.data[p], k2), "new-load-case", where=where)
        u = stretch("u", (n,))
        s.it.setattr(sim, "stretch", u)
        s.array(s.method(sim, "stress"), (), (n,), lambda p: m3.stress(
            case3, u.data[p], k2), "new-stretches", where=where)

    for case in CASES:
        chk.scenario("simulation-%s-repeated" % case,
                     lambda s, case=case: repeated(s, case))

    def custom(s):
        """A user's own load case."""
        m = Mat()
        x = stretch("x", (n,))
        log = []

        def defgrad(it, a, k):
            d = O.obj((3, 3, 1))
            for i in range(3):
                for j in range(3):
                    d[i, j, 0] = alg.app("G%d%d" % (i, j), topoly(a[0].data[0]))
            return AArray(d, (3, 3, n), "f")

        def stress(it, a, k):
            log.append((a, k))
            F, P = (list(a) + [k[n] for n in ("F", "P")[len(a):]])[:2]
            return AArray(np.array([alg.app("N", topoly(F.data[0, 1, 0]),
                                            topoly(P.data[0, 1, 0]))], dtype=object), (n,), "f")
        lc = HostObj("loadcase", {"label": "own", "defgrad": HostFunc("defgrad", defgrad),
                                  "stress": HostFunc("stress", stress)})
        v = alg.var("p_a")
        sim = s.call(LAB + "Simulation", lc, x, ["a"], m.fn, [v])
        r = s.method(sim, "stress")
        where = s.where_of(sim)
        F = O.obj((3, 3))
        for i in range(3):
            for j in range(3):
                F[i, j] = alg.app("G%d%d" % (i, j), topoly(x.data[0]))
        s.array(r, (), (n,), lambda p: alg.app("N", F[0, 1], m.value(F, 0, 1, {"a": v})),
                "stress", where=where)
        s.require(s.it.getattr(sim, "label") == "own", "label", "the label is %r"
                  % s.it.getattr(sim, "label"), where)
    chk.scenario("simulation-own-loadcase", custom)

    # complete pipelines against closed-form solutions
    def closed(s, case, space):
        vals = {y: alg.var(y) for y in ("C10", "C01", "C20")}

        def build(it, a, k):
            tod = s.call(MODELS + ".invariants.ThirdOrderDeformation", **k)
            return s.call(SPACES[space], s.call(INV, tod))
        lc = s.call(LAB + case)
        x = stretch("x", (n,))
        sim = s.call(LAB + "Simulation", loadcase=lc, stretch=x, labels=list(vals),
                     material=HostFunc("material", build), parameters=list(vals.values()))
        r = s.method(sim, "stress")
        lam = principal(case, topoly(x.data[0]))
        a, b, e = [y ** 2 for y in lam]
        I1, I2 = a + b + e, a * b + b * e + a * e
        W1 = vals["C10"] + 2 * vals["C20"] * (I1 - 3)
        W2 = vals["C01"]

        def T(y, I1=I1):
            """principal Cauchy stress up to a pressure (incompressible)"""
            return 2 * (W1 * y + W2 * (I1 * y - y ** 2))
        assert I2 is not None
        s.array(r, (), (n,), lambda p: (T(a) - T(e)) / lam[0], "closed-form",
                where=s.where_of(sim))

    for case in CASES:
        for space in ("deformation", "distortional"):
            chk.scenario("closed-form-%s-%s" % (case, space),
                         lambda s, case=case, space=space: closed(s, case, space))


# -- experiments ---------------------------------------------------------------------------------


def experiment(chk):
    """C43: experiments: data and derived quantities."""
    def run(s, t, area, length, pos):
        d, f = input_array("d", t), input_array("f", t)
        g = s.guard(d, f)
        A = alg.var("area", pos=True)
        L = alg.var("length", pos=True)
        kw = {}
        if area:
            kw["area"] = A
        if length:
            kw["length"] = L
        if pos:
            e = s.call(LAB + "Experiment", "label", d, f, *kw.values())
        else:
            e = s.call(LAB + "Experiment", label="label", displacement=d, force=f, **kw)
        where = s.where_of(e)
        A, L = (A if area else alg.ONE), (L if length else alg.ONE)
        s.array(s.it.getattr(e, "stretch"), (), t, lambda p: alg.ONE + topoly(d.data[p]) / L,
                "stretch", where=where)
        for k in range(3):
            r = s.method(e, "stress")
            s.array(r, (), t, lambda p: topoly(f.data[p]) / A, "stress%d" % k, where=where)
            if k and isinstance(r, AArray) and not r.readonly:
                # the caller writes to the result
                scribble([r], [])
        s.array(s.it.getattr(e, "stretch"), (), t, lambda p: alg.ONE + topoly(d.data[p]) / L,
                "stretch-afterwards", where=where)
        for nm, a in (("displacement", d), ("force", f)):
            s.array(s.it.getattr(e, nm), (), t, lambda p, a=a: a.data[p], nm, where=where)
        for nm, a in (("area", A), ("length", L)):
            s.same(s.it.getattr(e, nm), a, nm, where, nm)
        s.require(s.it.getattr(e, "label") == "label", "label", "the label is %r"
                  % s.it.getattr(e, "label"), where)
        s.untouched(g, "input", ["displacement", "force"])

    for t in [(n,), (3,), (1,)]:
        for area, length in [(1, 1), (0, 1), (1, 0), (0, 0)]:
            chk.scenario("experiment[%s]-%d%d" % (tname(t), area, length),
                         lambda s, t=t, a=area, L=length: run(s, t, a, L, False))
    chk.scenario("experiment-positional", lambda s: run(s, (n,), 1, 1, True))

    def sequences(s, kind, ints):
        """Data given as lists or tuples, as documented (array_like)."""
        d, f = input_array("d", (3,)), input_array("f", (3,))
        x, y = kind(d.data), kind(f.data)
        if ints:
            x, y = kind([0, 1, 3]), kind([0, 5, -2])
        keep = [list(x), list(y)]
        A, L = alg.var("area", pos=True), alg.var("length", pos=True)
        e = s.call(LAB + "Experiment", label="label", displacement=x, force=y, area=A,
                   length=L)
        where = s.where_of(e)
        s.array(npm.as_arr(s.it.getattr(e, "stretch")), (), (3,),
                lambda p: alg.ONE + topoly(keep[0][p[0]]) / L, "stretch", where=where)
        s.array(npm.as_arr(s.method(e, "stress")), (), (3,),
                lambda p: topoly(keep[1][p[0]]) / A, "stress", where=where)
        for nm, a in zip(("displacement", "force"), keep):
            s.array(npm.as_arr(s.it.getattr(e, nm)), (), (3,), lambda p, a=a: a[p[0]], nm,
                    where=where)
        s.require([list(x), list(y)] == keep, "input", "the caller's data are modified", where)

    for kind in (list, tuple):
        for ints in (False, True):
            chk.scenario("experiment-%s%s" % (kind.__name__, "-integers" if ints else ""),
                         lambda s, k=kind, i=ints: sequences(s, k, i))

    def extra(s):
        d, f = input_array("d", (n,)), input_array("f", (n,))
        tm, te = input_array("time", (n,)), input_array("temp", (n,))
        e = s.call(LAB + "Experiment", label="a", displacement=d, force=f, time=tm,
                   temperature=te)
        where = s.where_of(e)
        s.array(s.it.getattr(e, "time"), (), (n,), lambda p: tm.data[p], "time", where=where)
        s.array(s.it.getattr(e, "temperature"), (), (n,), lambda p: te.data[p], "temperature",
                where=where)
        e = s.call(LAB + "Experiment", label="a", displacement=d, force=f)
        s.require(s.it.getattr(e, "time") is None and s.it.getattr(e, "temperature") is None,
                  "no-time", "time or temperature appear from nowhere", where)
    chk.scenario("experiment-extra", extra)

    def two(s):
        d1, f1 = input_array("d1", (n,)), input_array("f1", (n,))
        d2, f2 = input_array("d2", (q,)), input_array("f2", (q,))
        A, L = alg.var("A", pos=True), alg.var("L", pos=True)
        e1 = s.call(LAB + "Experiment", label="a", displacement=d1, force=f1, area=A)
        e2 = s.call(LAB + "Experiment", label="b", displacement=d2, force=f2, length=L)
        where = s.where_of(e1)
        s.array(s.method(e1, "stress"), (), (n,), lambda p: f1.data[p] / A, "first",
                where=where)
        s.array(s.method(e2, "stress"), (), (q,), lambda p: f2.data[p], "second", where=where)
        s.array(s.it.getattr(e1, "stretch"), (), (n,), lambda p: 1 + topoly(d1.data[p]),
                "first-stretch", where=where)
        s.array(s.it.getattr(e2, "stretch"), (), (q,), lambda p: 1 + topoly(d2.data[p]) / L,
                "second-stretch", where=where)
        s.require(s.it.getattr(e1, "label") == "a" and s.it.getattr(e2, "label") == "b",
                  "labels", "two experiments share a label", where)
    chk.scenario("experiment-two", two)


# -- optimisation -----------------------------------------------------------------------------------


class Lab:
    """Real experiments and simulations with opaque materials, and a scipy stand-in."""
    singular = False

    def __init__(self, s, cases=CASES, masks="none", labels=("k", "C10"), start="float",
                 same_material=False, dims=None, unequal=True, frozen=False, repeat=False):
        self.s, self.cases = s, cases
        self.labels = list(labels)
        it = s.it
        self.exps, self.sims, self.mats, self.x, self.y = [], [], [], [], []
        self.masks = None if masks == "none" else []
        self.inputs, self.names, self.full = [], [], []
        mat = Mat()
        for k, case in enumerate(cases):
            if repeat and k:
                # the same objects once more, with their own mask
                for y in (self.exps, self.sims, self.mats):
                    y.append(y[0])
                self.full.append(self.full[0])
                x, y = self.full[0]
                if self.masks is not None:
                    self.masks.append(self.mask(masks, k, x.dims))
                    x, y = npm.getitem(x, self.masks[-1]), npm.getitem(y, self.masks[-1])
                self.x.append(x)
                self.y.append(y)
                continue
            d = (D[k % 3],) if unequal else (D[0],)
            if dims is not None:
                d = (dims[k],)
            disp = input_array("d%d" % k, d, pos=True)
            force = input_array("f%d" % k, d)
            A, L = alg.var("A%d" % k, pos=True), alg.var("L%d" % k, pos=True)
            e = s.call(LAB + "Experiment", label="exp%d" % k, displacement=disp, force=force,
                       area=A, length=L)
            m = mat if same_material else Mat("P%d_" % k)
            # the simulation's own stretches differ from those of the experiment
            own = stretch("own%d" % k, (Dim("own%d" % k),))
            sim = s.call(LAB + "Simulation", loadcase=s.call(LAB + case), stretch=own,
                         labels=list(labels), material=m.fn)
            self.exps.append(e)
            self.sims.append(sim)
            self.mats.append(m)
            self.inputs += [disp, force, own]
            self.names += ["displacement", "force", "the simulation's stretches"]
            x = np.empty(disp.data.shape, dtype=object)
            y = np.empty(disp.data.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                x[i] = alg.ONE + topoly(disp.data[i]) / L
                y[i] = topoly(force.data[i]) / A
            x, y = AArray(x, d, "f"), AArray(y, d, "f")
            self.full.append((x, y))
            if self.masks is not None:
                mk = self.mask(masks, k, d)
                self.masks.append(mk)
                x, y = npm.getitem(x, mk), npm.getitem(y, mk)
            self.x.append(x)
            self.y.append(y)
        a = np.empty(len(labels), dtype=object)
        for k, y in enumerate(labels):
            a[k] = alg.var("start_" + y)
            if start == "int":
                a[k] = alg.var("istart_" + y)
                a[k].is_var().isint = True
        self.start = AArray(a, (len(labels),), "i" if start == "int" else "f")
        self.p0 = list(a)
        arg = list(a) if start == "list" else tuple(a) if start == "tuple" else self.start
        self.arg = arg
        if isinstance(arg, AArray):
            self.inputs.append(self.start)
            self.names.append("the initial parameters")
        for y in self.masks or []:
            if isinstance(y, AArray):
                self.inputs.append(y)
                self.names.append("the mask")
        self.guards = s.guard(*self.inputs)
        for y in self.inputs if frozen else ():
            y.readonly = True
        kw = {} if self.masks is None else {"mask": self.masks}
        self.lists = (list(self.exps), list(self.sims), None if self.masks is None
                      else list(self.masks))
        self.opt = s.call(LAB + "Optimize", experiments=self.exps, simulations=self.sims,
                          parameters=arg, **kw)
        self.where = s.where_of(self.opt)
        self.fits = []
        it.curve_fit_hook = self.hook

    def mask(self, kind, k, d):
        if kind == "slice" or (kind == "mixed" and k == 1):
            return slice(None, None, 2)
        if kind == "mixed" and k == 2:
            return slice(None)
        if kind == "points":       # by number, with any order and repetitions
            at = [[3, 0, 2], [1, -1], [2, 2, 0, 3]][k % 3]
            return at if k == 1 else AArray(npm.from_nested(at).data, (len(at),), "i")
        if kind == "truths":
            return [[True, False, True, True], [False, True, True, False],
                    [True, True, False, False]][k % 3]
        a = np.empty(tuple(dlen(y) for y in d), dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = Cond("opaque", ("mask %d at a point" % k,) + i)
        return AArray(a, d, "b")

    # scipy.optimize.curve_fit
    def hook(self, it, a, k):
        names = ["f", "xdata", "ydata", "p0"]
        k = dict(k)
        args = dict(zip(names, a))
        for y in names:
            if y in k:
                args[y] = k.pop(y)
        for y, v in args.items():
            if isinstance(v, AArray):      # as they are when the fit starts
                args[y] = AArray(v.data.copy(), v.dims, v.dtype)
            elif isinstance(v, list):
                args[y] = list(v)
        j = len(self.fits)
        npar = len(self.labels)
        popt = np.empty(npar, dtype=object)
        cov = np.empty((npar, npar), dtype=object)
        for i in range(npar):
            popt[i] = alg.var("popt%d_%d" % (j, i))
            for l_ in range(npar):
                cov[i, l_] = alg.var("cov%d_%d%d" % (j, min(i, l_), max(i, l_)), pos=i == l_)
                if self.singular:        # what the routine returns for a rank-deficient fit
                    cov[i, l_] = alg.app("const", "inf", pos=True)
        probe = [alg.var("probe%d_%d" % (j, i)) for i in range(npar)]
        # scipy evaluates the function with its own array of the data
        x = args.get("xdata")
        fr = {"site": it.site(), "args": args, "extra": k, "rest": list(a[4:]),
              "probe": probe, "popt": AArray(popt, (npar,), "f"),
              "cov": AArray(cov, (npar, npar), "f")}
        self.fits.append(fr)
        fr["value"] = it.call(args["f"], [x] + probe, {})
        fr["again"] = it.call(args["f"], [x] + list(popt), {})
        if k.get("full_output"):
            fr["more"] = [HostObj("infodict"), "message of the routine", 2]
            return (fr["popt"], fr["cov"], *fr["more"])
        return (fr["popt"], fr["cov"])

    def model(self, vals):
        """Expected stresses of all experiments (masked), concatenated."""
        out, dims = [], []
        kk = dict(zip(self.labels, vals))
        for case, m, x in zip(self.cases, self.mats, self.x):
            d = np.empty(x.data.shape, dtype=object)
            for i in np.ndindex(*d.shape):
                d[i] = m.stress(case, x.data[i], kk)
            out.append(AArray(d, x.dims, "f"))
        return self.cat(out)

    @staticmethod
    def cat(arrs):
        from .. import nplib
        return nplib.concatenate(list(arrs))

    def equal(self, got, want, label, what):
        s = self.s
        if not isinstance(got, AArray):
            s.violation(label, "%s is %r instead of an array" % (what, got), self.where)
            return
        s.array(got, (), want.dims, lambda p: want.data[p], label, where=self.where)


def vals(a):
    return list(a.data.ravel())


def check_fit(L, fr, p0, tag):
    s = L.s
    a = fr["args"]
    L.equal(a.get("ydata"), L.cat(L.y), tag + "ydata", "the dependent data of the fit")
    L.equal(fr["value"], L.model(fr["probe"]), tag + "function", "the fitted function")
    L.equal(fr["again"], L.model(vals(fr["popt"])), tag + "function-again",
            "the fitted function")
    g = a.get("p0")
    if g is None:
        s.violation(tag + "p0", "the fit does not start from the initial parameters",
                    fr["site"])
    else:
        g = npm.as_arr(g)
        s.array(g, (), (len(p0),), lambda p: p0[p[0]], tag + "p0", where=fr["site"])


def residuals(chk):
    """C44: residuals of the parameter identification."""
    def run(s, masks, cases, start="float", same=False, unequal=True, repeat=False, dims=None):
        L = Lab(s, cases=cases, masks=masks, start=start, same_material=same, dims=dims,
                unequal=unequal, repeat=repeat)
        s.method(L.opt, "init_curve_fit")
        r0 = L.s.it.getattr(L.opt, "residuals")
        y = L.cat(L.y)

        def diff(vals_):
            m = L.model(vals_)
            d = np.empty(m.data.shape, dtype=object)
            for i in np.ndindex(*d.shape):
                d[i] = m.data[i] - topoly(y.data[i])
            return AArray(d, m.dims, "f")
        L.equal(r0, diff(L.p0), "initial-residuals", "the initial residual vector")
        s.method(L.opt, "curve_fit")
        s.require(len(L.fits) == 1, "fits", "%d fits are carried out" % len(L.fits), L.where)
        for fr in L.fits:
            check_fit(L, fr, L.p0, "")
        L.equal(s.it.getattr(L.opt, "residuals"), diff(vals(L.fits[-1]["popt"])),
                "residuals", "the residual vector")
        r = s.method(L.opt, "norm_residuals")
        res = s.it.getattr(L.opt, "residuals")
        want = npm.CUR and s.it.call(s.it.getattr(s.it.getattr(s.it.load("numpy"), "linalg"),
                                                  "norm"), [res], {})
        s.same(topoly(r), topoly(want), "norm", L.where, "the norm of the residuals")

    for masks in ("none", "mask", "slice", "mixed"):
        for cases in (CASES, CASES[:1], ("Biaxial", "Uniaxial")):
            chk.scenario("residuals-%s-%d%s" % (masks, len(cases), cases[0][0]),
                         lambda s, m=masks, k=cases: run(s, m, k))
    for masks in ("points", "truths"):
        chk.scenario("residuals-%s" % masks,
                     lambda s, m=masks: run(s, m, CASES, dims=(4, 4, 4)))
    chk.scenario("residuals-equal-lengths", lambda s: run(s, "none", CASES, unequal=False))
    chk.scenario("residuals-one-material", lambda s: run(s, "mask", CASES, same=True))
    chk.scenario("residuals-list", lambda s: run(s, "none", CASES[:2], start="list"))
    for masks in ("none", "mask"):
        chk.scenario("residuals-repeated-%s" % masks, lambda s, m=masks: run(
            s, m, CASES[:1] * 3, repeat=True))
    chk.scenario("residuals-many", lambda s: run(s, "mask", CASES * 4))
    chk.scenario("residuals-twice-uniaxial", lambda s: run(
        s, "mask", ("Uniaxial", "Uniaxial")))


def results(chk):
    """C45: results of the parameter identification."""
    def state(s, L, popt, cov, tag):
        it = s.it
        npar = len(L.labels)
        where = L.where
        s.array(it.getattr(L.opt, "parameters"), (), (npar,), lambda p: popt.data[p],
                tag + "parameters", where=where)
        for k, sim in enumerate(L.sims):
            s.array(npm.as_arr(it.getattr(sim, "parameters")), (), (npar,),
                    lambda p: popt.data[p], tag + "simulation%d" % k, where=where)
            x = L.inputs[3 * k + 2]
            kk = dict(zip(L.labels, vals(popt)))
            s.array(s.method(sim, "stress"), (), x.dims, lambda p: L.mats[k].stress(
                L.cases[k], x.data[p], kk), tag + "simulation%d-stress" % k, where=where)
        s.array(it.getattr(L.opt, "errors"), (), (npar,), lambda p: alg.topoly(
            cov.data[p[0], p[0]]) ** HALF.as_const(), tag + "errors", where=where)

    def run(s, masks, start, nfit, cases):
        L = Lab(s, cases=cases, masks=masks, start=start)
        kwargs = [{}, {"method": "lm", "maxfev": 7, "absolute_sigma": True},
                  {"method": "trf", "bounds": (0, 1), "loss": "soft_l1", "jac": "3-point",
                   "check_finite": False, "some_option": 3}]
        for j in range(nfit):
            r = s.method(L.opt, "curve_fit", **kwargs[j % 3])
            if len(L.fits) != j + 1:
                s.violation("fits", "%d fits are carried out" % len(L.fits), L.where)
                return
            fr = L.fits[-1]
            s.require(fr["extra"] == kwargs[j % 3] and not fr["rest"], "options%d" % j,
                      "the options of the fit are %s instead of %s" % (
                          fr["extra"], kwargs[j % 3]), fr["site"])
            ok = isinstance(r, (tuple, list)) and len(r) == 2
            if not s.require(ok, "returned%d" % j, "curve_fit returns %r" % (r,), L.where):
                return
            npar = len(L.labels)
            s.array(npm.as_arr(r[0]), (), (npar,), lambda p: fr["popt"].data[p],
                    "returned-parameters%d" % j, where=L.where)
            s.array(npm.as_arr(r[1]), (npar, npar), (), lambda p: fr["cov"].data,
                    "returned-covariance%d" % j, where=L.where)
            state(s, L, fr["popt"], fr["cov"], "fit%d-" % j)
            check_fit(L, fr, L.p0 if j == 0 else vals(L.fits[j - 1]["popt"]), "fit%d-" % j)

    for start in ("float", "int", "list", "tuple"):
        for nfit in (1, 2):
            chk.scenario("results-%s-%d" % (start, nfit), lambda s, st=start, k=nfit: run(
                s, "none", st, k, CASES))
    chk.scenario("results-masked", lambda s: run(s, "mask", "float", 1, CASES))
    chk.scenario("results-single", lambda s: run(s, "none", "float", 3, CASES[:1]))

    def options(s, how):
        """Options by position, and the option for further results."""
        L = Lab(s, cases=CASES[:2])
        sigma = HostObj("standard deviations")
        r = s.method(L.opt, "curve_fit", *([sigma] if how == "positional" else []),
                     **({"full_output": True} if how == "full" else {}))
        if not s.require(len(L.fits) == 1, "fits", "%d fits are carried out" % len(L.fits),
                         L.where):
            return
        fr = L.fits[-1]
        if how == "positional":
            s.require((fr["rest"] == [sigma] and not fr["extra"]) or (
                not fr["rest"] and fr["extra"] == {"sigma": sigma}), "options",
                "the options of the fit are %s %s instead of the given standard deviations"
                % (fr["rest"], fr["extra"]), fr["site"])
        else:
            s.require(fr["extra"] == {"full_output": True} and not fr["rest"], "options",
                      "the options of the fit are %s" % (fr["extra"],), fr["site"])
            ok = isinstance(r, (tuple, list)) and len(r) == 5
            if s.require(ok, "returned", "curve_fit returns %s instead of all the results of "
                         "the routine" % (r,), L.where):
                s.require(list(r[2:]) == fr["more"], "returned-more", "the further results "
                          "are %s" % (r[2:],), L.where)
        if isinstance(r, (tuple, list)) and len(r) >= 2:
            s.array(npm.as_arr(r[0]), (), (2,), lambda p: fr["popt"].data[p],
                    "returned-parameters", where=L.where)
            s.array(npm.as_arr(r[1]), (2, 2), (), lambda p: fr["cov"].data,
                    "returned-covariance", where=L.where)
        state(s, L, fr["popt"], fr["cov"], "options-")
        check_fit(L, fr, L.p0, "options-")

    for how in ("positional", "full"):
        chk.scenario("results-options-" + how, lambda s, h=how: options(s, h))

    def singular(s):
        """Parameters which the data do not determine: infinite covariances."""
        L = Lab(s, cases=CASES[:2])
        L.singular = True
        r = s.method(L.opt, "curve_fit")
        inf = alg.app("const", "inf", pos=True)
        ok = isinstance(r, (tuple, list)) and len(r) == 2
        if s.require(ok, "returned", "curve_fit returns %r" % (r,), L.where):
            s.array(npm.as_arr(r[1]), (2, 2), (), lambda p: L.fits[-1]["cov"].data,
                    "returned-covariance", where=L.where)
        e = s.it.getattr(L.opt, "errors")
        if s.require(isinstance(e, AArray) and e.dims == (2,), "errors", "the errors are %r"
                     % (e,), L.where):
            for p in range(2):
                v = topoly(e.data[p])
                s.require(v == inf or v == inf ** HALF.as_const(), "errors/%d" % p,
                          "the error of a parameter of infinite variance is %s" % (v,),
                          L.where)
    chk.scenario("results-undetermined", singular)

    def mean(s):
        L = Lab(s, cases=CASES[:1])
        s.method(L.opt, "curve_fit")
        fr = L.fits[0]
        w = alg.ZERO
        for i in range(2):
            w = w + alg.topoly(fr["cov"].data[i, i]) ** HALF.as_const() / topoly(
                s.it.call(s.it.getattr(s.it.load("numpy"), "abs"), [
                    fr["popt"].data[i]], {}))
        s.same(topoly(s.method(L.opt, "mean_relative_std")), w * 50, "mean", L.where,
               "the mean relative standard deviation in percent")
    chk.scenario("mean-relative-std", mean)

    def fresh(s):
        """Before a fit: parameters as given, no error estimates."""
        L = Lab(s, cases=CASES[:2])
        r = s.method(L.opt, "init_curve_fit")
        s.array(npm.as_arr(r), (), (2,), lambda p: L.p0[p[0]], "start", where=L.where)
        for sim in L.sims:
            s.array(npm.as_arr(s.it.getattr(sim, "parameters")), (), (2,),
                    lambda p: L.p0[p[0]], "simulation-start", where=L.where)
        e = s.it.getattr(L.opt, "errors")
        s.require(isinstance(e, AArray) and e.dims == (2,), "errors-start",
                  "the errors are %r" % (e,), L.where)
    chk.scenario("initial-state", fresh)

    def failing(s):
        """A fit which does not converge is reported and keeps the parameters."""
        L = Lab(s, cases=CASES[:2])

        def raising(it, a, k):
            from ..absval import AbsRaise
            raise AbsRaise("RuntimeError", "Optimal parameters not found")
        s.it.curve_fit_hook = raising
        from ..absval import AbsRaise
        try:
            s.method(L.opt, "curve_fit")
        except AbsRaise as e:
            s.require(e.etype == "RuntimeError", "error", "a failed fit raises %s" % e.etype,
                      L.where)
        else:
            s.violation("error", "a failed fit is not reported", L.where)
        s.array(s.it.getattr(L.opt, "parameters"), (), (2,), lambda p: L.p0[p[0]],
                "kept-parameters", where=L.where)
    chk.scenario("failed-fit", failing)


def untouched(chk):
    """C46: what the caller hands to the lab stays as it is."""
    def run(s, masks, start, cases=CASES, plot=True, frozen=False):
        L = Lab(s, cases=cases, masks=masks, start=start, frozen=frozen)

        def lists(tag):
            e, m, k = L.lists
            s.require(L.exps == e, "experiments/" + tag, "the list of experiments is "
                      "modified", L.where)
            s.require(L.sims == m, "simulations/" + tag, "the list of simulations is "
                      "modified", L.where)
            s.require(k is None or len(k) == len(L.masks) and all(
                a is b for a, b in zip(k, L.masks)), "masks/" + tag,
                "the list of masks is modified", L.where)
            s.require(list(L.arg) == L.p0 if isinstance(L.arg, (list, tuple)) else True,
                      "parameters/" + tag, "the list of initial parameters is modified",
                      L.where)
            s.untouched(L.guards, tag, L.names)
        lists("init")
        s.method(L.opt, "init_curve_fit")
        lists("init_curve_fit")
        s.method(L.opt, "curve_fit")
        lists("curve_fit")
        fr = L.fits[-1]
        keep = [fr["popt"].data.copy(), fr["cov"].data.copy()]
        s.method(L.opt, "norm_residuals")
        s.method(L.opt, "mean_relative_std")
        if plot:
            s.method(L.opt, "plot")
        lists("plot")
        s.require(all(a is b or a == b for a, b in zip(keep[1].ravel(),
                                                       fr["cov"].data.ravel())),
                  "covariance", "the covariance matrix is modified", L.where)
        for sim in L.sims:
            s.method(sim, "stress")
        for e in L.exps:
            s.method(e, "stress")
        lists("stress")
        for k, (e, m) in enumerate(zip(L.exps, L.sims)):
            x, own = s.it.getattr(m, "stretch"), L.inputs[3 * k + 2]
            s.require(x is own or (isinstance(x, AArray) and tuple(x.dims) == tuple(own.dims)
                                   and np.all(x.data == own.data)),
                      "simulation%d-stretches" % k, "the stretches of the simulation are "
                      "replaced by %r" % (x,), L.where)
            s.array(npm.as_arr(s.it.getattr(e, "stretch")), (), L.full[k][0].dims,
                    lambda p, k=k: L.full[k][0].data[p], "experiment%d-stretches" % k,
                    where=L.where)

    for masks in ("none", "mask"):
        for start in ("float", "int", "list"):
            chk.scenario("untouched-%s-%s" % (masks, start),
                         lambda s, m=masks, st=start: run(s, m, st))

    for masks in ("none", "mask"):
        chk.scenario("read-only-%s" % masks, lambda s, m=masks: run(s, m, "float",
                                                                  frozen=True))

    def defaults(s):
        """Simulations without given parameters have their own ones."""
        m = Mat()
        x = stretch("x", (n,))
        sims = [s.call(LAB + "Simulation", loadcase=s.call(LAB + "Uniaxial"), stretch=x,
                       labels=["a", "b"], material=m.fn) for k in range(2)]
        where = s.where_of(sims[0])
        a, b = (s.it.getattr(y, "parameters") for y in sims)
        if isinstance(a, list) or isinstance(b, list):
            s.require(a is not b, "defaults", "two simulations share their list of "
                      "parameters", where)
        else:
            s.require(not np.shares_memory(npm.as_arr(a).data, npm.as_arr(b).data)
                      or a is None, "defaults", "two simulations share the array of their "
                      "default parameters", where)
    chk.scenario("default-parameters", defaults)

    def given(s, kind):
        """A simulation's own parameter array is not the optimiser's."""
        m = Mat()
        a = np.empty(2, dtype=object)
        a[:] = [alg.var("own_a"), alg.var("own_b")]
        own = AArray(a, (2,), "f")
        x = stretch("x", (n,))
        d, f = input_array("d", (n,), pos=True), input_array("f", (n,))
        arg = own if kind == "array" else [alg.var("own_a"), alg.var("own_b")]
        sim = s.call(LAB + "Simulation", loadcase=s.call(LAB + "Uniaxial"), stretch=x,
                     labels=["a", "b"], material=m.fn, parameters=arg)
        e = s.call(LAB + "Experiment", label="e", displacement=d, force=f)
        L = object.__new__(Lab)
        L.fits, L.labels = [], ["a", "b"]
        s.it.curve_fit_hook = L.hook
        p = input_array("p", (2,))
        g = s.guard(own, p, x, d, f)
        opt = s.call(LAB + "Optimize", [e], [sim], p)
        s.method(opt, "curve_fit")
        s.method(opt, "curve_fit")
        s.untouched(g, "given", ["the simulation's own parameters", "the initial parameters",
                                 "the stretches", "displacement", "force"])
        if kind == "list":
            s.require(list(arg) == [alg.var("own_a"), alg.var("own_b")], "given-list",
                      "the simulation's own list of parameters is modified", s.where_of(opt))
    for kind in ("array", "list"):
        chk.scenario("untouched-own-parameters-%s" % kind, lambda s, k=kind: given(s, k))

    # two optimisations which share experiments
    def shared(s):
        L = Lab(s, cases=CASES[:2])
        m = Mat("Q")
        x = stretch("z", (n,))
        other = [s.call(LAB + "Simulation", loadcase=s.call(LAB + cs), stretch=x,
                        labels=L.labels, material=m.fn) for cs in CASES[:2]]
        opt2 = s.call(LAB + "Optimize", L.exps, other, input_array("w", (2,)))
        s.method(L.opt, "curve_fit")
        first = vals(L.fits[-1]["popt"])
        s.method(opt2, "curve_fit")
        s.array(s.it.getattr(L.opt, "parameters"), (), (2,), lambda p: first[p[0]],
                "first", where=L.where)
        for sim in L.sims:
            s.array(npm.as_arr(s.it.getattr(sim, "parameters")), (), (2,),
                    lambda p: first[p[0]], "first-simulation", where=L.where)
        s.untouched(L.guards, "shared", L.names)
    chk.scenario("two-optimisations", shared)


# -- plots ---------------------------------------------------------------------------------------------


def plots(chk):
    """C48: what is plotted."""
    def calls(s, name):
        return [y for y in getattr(s.it, "plotlog", []) if y[0].endswith(name)]

    def objects(s, kind):
        m = Mat()
        if kind == "experiment":
            d, f = input_array("d", (n,), pos=True), input_array("f", (n,))
            e = s.call(LAB + "Experiment", label="mine", displacement=d, force=f,
                       area=alg.var("A", pos=True), length=alg.var("L", pos=True))
            return e, {"plot_force_displacement": (
                lambda: topoly(d.data[0]), lambda: topoly(f.data[0])),
                "plot_stress_stretch": (
                    lambda: 1 + topoly(d.data[0]) / alg.var("L", pos=True),
                    lambda: topoly(f.data[0]) / alg.var("A", pos=True))}, "mine"
        x = stretch("x", (n,))
        p = alg.var("p_a")
        sim = s.call(LAB + "Simulation", loadcase=s.call(LAB + "Planar", label="mine"),
                     stretch=x, labels=["a"], material=m.fn, parameters=[p])
        return sim, {"plot_stress_stretch": (
            lambda: topoly(x.data[0]),
            lambda: m.stress("Planar", x.data[0], {"a": p}))}, "mine"

    def run(s, kind, given, label, style):
        o, todo, own = objects(s, kind)
        where = s.where_of(o)
        s.it.load("matplotlib.pyplot")
        for name, (X, Y) in todo.items():
            s.it.plotlog.clear()
            kw = {}
            args = []
            fig0 = ax0 = None
            if given:
                fig0, ax0 = figure(s.it)
                kw["ax"] = ax0
            if label:
                kw["label"] = text = "other" if label == 1 else ""
            if style:
                args = ["C1."] + (["more", "k-"] if style > 1 else [])
                kw.update(lw=3, alpha=HALF)
            w = s.where_of(s.it.getattr(o, name)) or where
            r = s.method(o, name, *args, **kw)
            if not s.require(isinstance(r, (tuple, list)) and len(r) == 2, name + "/returned",
                             "%s returns %r" % (name, r), w):
                continue
            fig, ax = r
            made = calls(s, "plt.subplots") + calls(s, "plt.figure")
            if given:
                s.require(ax is ax0 and fig is fig0, name + "/axes", "the plot does not use "
                          "the given axes", w)
                s.require(not made, name + "/figures", "a figure is created although axes "
                          "are given", w)
            else:
                s.require(len(made) == 1 and isinstance(ax, Recorder), name + "/figures",
                          "%d figures are created" % len(made), w)
            lines = [y for y in s.it.plotlog if y[0].split(".")[-1] == "plot"]
            if not s.require(len(lines) == 1 and lines[0][0] == getattr(
                    ax, "name", None) + ".plot", name + "/line",
                    "%d lines are drawn in the returned axes" % len(
                        [y for y in lines if y[0] == getattr(ax, "name", "") + ".plot"]), w):
                continue
            nm, a, k, site = lines[0]
            if not s.require(len(a) >= 2, name + "/data", "the line has no data", site):
                continue
            s.array(npm.as_arr(a[0]), (), (n,), lambda p: X(), name + "/abscissa", where=site)
            s.array(npm.as_arr(a[1]), (), (n,), lambda p: Y(), name + "/ordinate", where=site)
            s.require(k.get("label") == (text if label else own), name + "/label",
                      "the label of the line is %r" % k.get("label"), site)
            if style:
                s.require(list(a[2:]) == args and k.get("lw") == 3 and "alpha" in k,
                          name + "/style", "the style arguments are %s %s" % (a[2:], {
                              x: y for x, y in k.items() if x != "label"}), site)
            s.require(s.it.getattr(o, "label") == own, name + "/own-label",
                      "plotting changes the label of the object", w)
            for axis in ("set_xlabel", "set_ylabel"):
                s.require(any(y[0] == ax.name + "." + axis and y[1] for y in s.it.plotlog)
                          or any(y[0] == ax.name + ".set" and axis[4:] in y[2]
                                 for y in s.it.plotlog),
                          name + "/" + axis, "the axes have no %s" % axis[4:], w)

    for kind in ("experiment", "simulation"):
        for given in (0, 1):
            for label in (0, 1, 2):
                for style in (0, 1) + ((2,) if not given and not label else ()):
                    chk.scenario("plot-%s-%d%d%d" % (kind, given, label, style),
                                 lambda s, k=kind, g=given, la=label, st=style: run(
                                     s, k, g, la, st))

    def axis_labels(s, kind):
        o, todo, own = objects(s, kind)
        s.it.load("matplotlib.pyplot")
        for name in todo:
            s.it.plotlog.clear()
            w = s.where_of(s.it.getattr(o, name))
            fig, ax = s.method(o, name, xlabel="my x", ylabel="my y")
            for axis, want in (("set_xlabel", "my x"), ("set_ylabel", "my y")):
                got = [y[1][0] if y[1] else None for y in s.it.plotlog
                       if y[0] == ax.name + "." + axis]
                got += [y[2].get(axis[4:]) for y in s.it.plotlog if y[0] == ax.name + ".set"]
                s.require(want in got, name + "/" + axis, "the given %s is replaced by %s"
                          % (axis[4:], got), w)
    for kind in ("experiment", "simulation"):
        chk.scenario("axis-labels-%s" % kind, lambda s, k=kind: axis_labels(s, k))

    def optimise(s, title, cases):
        L = Lab(s, cases=cases)
        s.method(L.opt, "curve_fit")
        s.it.plotlog.clear()
        r = s.method(L.opt, "plot", **({"title": "my title"} if title else {}))
        w = s.where_of(s.it.getattr(L.opt, "plot"))
        if not s.require(isinstance(r, (tuple, list)) and len(r) == 2, "optimise/returned",
                         "plot returns %r" % (r,), w):
            return
        ax = r[1]
        made = calls(s, "plt.subplots") + calls(s, "plt.figure")
        s.require(len(made) == 1, "optimise/figures", "%d figures are created" % len(made), w)
        lines = [y for y in s.it.plotlog if y[0].split(".")[-1] == "plot"]
        s.require(all(y[0] == ax.name + ".plot" for y in lines), "optimise/axes",
                  "lines are drawn in different axes", w)
        popt = vals(L.fits[0]["popt"])
        kk = dict(zip(L.labels, popt))
        want = []
        for k in range(len(cases)):
            x = L.inputs[3 * k + 2]
            want.append(("simulation %d" % k, x, [L.mats[k].stress(
                cases[k], x.data[0], kk)]))
            want.append(("experiment %d" % k, L.x[k], vals(L.y[k])))
        for nm, x, y in want:
            hit = [z for z in lines if len(z[1]) >= 2 and isinstance(z[1][0], AArray)
                   and z[1][0].dims == x.dims and isinstance(z[1][1], AArray)
                   and s.zero(topoly(z[1][0].data[0]) - topoly(x.data[0])) in (
                       "exact", "tested")
                   and s.zero(topoly(z[1][1].data[0]) - y[0]) in ("exact", "tested")]
            s.require(len(hit) == 1, "optimise/" + nm, "the data of %s is drawn %d times with "
                      "the optimised parameters" % (nm, len(hit)), w)
        if title:
            t = [y for y in s.it.plotlog if y[0] in (ax.name + ".set_title",)
                 and "my title" in y[1]]
            s.require(t or any("suptitle" in y[0] and "my title" in y[1]
                               for y in s.it.plotlog), "optimise/title",
                      "the title is missing", w)
        else:
            t = [y for y in s.it.plotlog if y[0].endswith("title")]
            s.require(not t, "optimise/title", "a title is drawn which is not given", w)
        legend = [y for y in s.it.plotlog if y[0] in (ax.name + ".legend", "plt.legend")
                  or y[0].endswith(".legend")]
        s.require(legend, "optimise/legend", "the lines are not named by a legend", w)
        named = [y[2].get("label") for y in lines]
        s.require(all(isinstance(x, str) and x for x in named) and
                  len(set(named)) == len(named), "optimise/names",
                  "the lines are labelled %s" % (named,), w)
        for k in range(len(cases)):
            cnt = [x for x in named if isinstance(x, str) and re.search(
                r"exp%d(?!\d)" % k, x)]
            s.require(len(cnt) == 2, "optimise/names%d" % k, "%d lines carry the label of "
                      "experiment %d" % (len(cnt), k), w)
        texts = [str(z) for y in s.it.plotlog if y[0].endswith(".text") or
                 y[0].endswith(".annotate") for y_ in (y[1], tuple(y[2].values()))
                 for z in y_ if isinstance(z, str)]
        txt = "\n".join(texts)
        if "{..}" in txt:
            s.unknown("optimise/text", "the text is not decided: %s" % txt[:200])
            return

        def tokens(ln):
            return set(re.findall(r"\w+", re.sub(r"\{[^{}]*\}", "", ln)))

        err = [topoly(L.fits[0]["cov"].data[k, k]) ** HALF.as_const()
               for k in range(len(L.labels))]
        for k, lab in enumerate(L.labels):
            lines_ = [ln for ln in txt.split("\n") if lab in tokens(ln)]
            ok = len(lines_) == 1 and "{%s}" % popt[k] in lines_[0] and not any(
                "{%s}" % popt[j] in lines_[0] for j in range(len(popt)) if j != k)
            s.require(ok, "optimise/text-" + lab, "the value of the parameter %s is not shown "
                      "next to its label: %s" % (lab, lines_), w)
            if ok:
                shown = set(re.findall(r"\{([^{}]*)\}", lines_[0])) - {str(popt[k])}
                s.require(shown <= {str(2 * err[k])}, "optimise/error-" + lab,
                          "the error of the parameter %s is shown as %s instead of two "
                          "standard deviations" % (lab, sorted(shown)), w)
        for k, lab in enumerate(L.labels):
            for what, v in (("value", popt[k]), ("error", 2 * err[k])):
                fixed = sorted({f for t, f in s.it.formats if t == str(v) and
                                f[-1:] in tuple("fFd%")})
                s.require(not fixed, "optimise/digits-%s-%s" % (what, lab), "the %s of the "
                          "parameter %s is shown with the format %s: its digits vanish if it "
                          "is small" % (what, lab, fixed), w)
        norm = s.method(L.opt, "norm_residuals")
        mean = s.method(L.opt, "mean_relative_std")
        rel = alg.const(0)
        for k in range(len(L.labels)):
            rel = rel + err[k] / alg.app("abs", popt[k])
        s.same(topoly(mean), rel * 100 / len(L.labels), "optimise/mean-value", w,
               "the mean deviation shown in the plot")
        for key, word, v in (("norm", "residual", norm), ("mean", "deviation", mean)):
            hit = [ln for ln in txt.split("\n") if word in ln.lower()]
            from ..interp import format_value
            s.require(all(format_value(v) in ln for ln in hit), "optimise/" + key,
                      "the number shown in %s is not the %s of the optimisation"
                      % ([ln[:60] for ln in hit], key), w)

    for title in (0, 1):
        for cases in (CASES, CASES[:1]) + (() if title else (CASES * 4,)):
            chk.scenario("plot-optimise-%d-%d" % (title, len(cases)),
                         lambda s, t=title, k=cases: optimise(s, t, k))
