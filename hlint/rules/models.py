"""Built-in material models: strain measures, third-order deformation, Ogden, Torch."""

from fractions import Fraction

import numpy as np

from .. import alg
from .. import npm
from .. import oracle as O
from .. import stubs
from ..absval import AArray, dlen, input_array
from ..inputs import sized, THREE, TRAX, at, c, n, q, sym, tname, vec
from .frameworks import INV, STR, gradresult, inv_defs, points, traxes

MODELS = "hyperelastic.models"


def arr(x):
    return x if isinstance(x, AArray) else npm.as_arr(x)


# -- strain measures -------------------------------------------------------------------------


def exponents():
    k = alg.var("kexp", pos=True)
    return [("k", k), ("2", 2), ("1", 1), ("3", 3), ("-2", -2), ("-1", -1),
            ("half", alg.const(Fraction(1, 2)))]


def measure(k, which):
    x = alg.var("lambda_", pos=True)
    E = x ** k if which == "deformation" else (x ** k - 1) / k
    i = x.is_var().idx
    d = alg.diff(E, i)
    return i, E, d, alg.diff(d, i)


def strain_measures(chk):
    """C17: generalised strain measures."""
    for which in ("strain", "deformation"):
        for kn, k in exponents():
            for t in [None, (), (n,), (q, c), (1, 1), THREE] + sized(chk):
                def run(s, which=which, k=k, t=t):
                    i, *f = measure(alg.topoly(k), which)
                    j, *f2 = measure(alg.const(2), which)
                    if t is None:
                        lam, lead = 1, ()
                    else:
                        lam, lead = vec("lam", 3, t, pos=True), (3,) + tuple(t)
                    gd = s.guard(lam) if t is not None else []
                    fn = s.attr(MODELS + ".generalized." + which)
                    r = s.call(fn, lam, exponent=k)
                    where = s.where_of(fn)
                    if not s.require(isinstance(r, (tuple, list)) and len(r) == 6, "six-values",
                                     "%r is not (E, E', E'', reference values)" % (r,), where):
                        return
                    names = ["value", "first-derivative", "second-derivative"]
                    for a in range(3):
                        s.array(arr(r[a]), (), lead, lambda p, a=a: alg.subst(
                            f[a], {i: alg.ONE if t is None else lam.data[p]}),
                            names[a], where=where)
                        s.same(r[3 + a], alg.subst(f2[a], {j: alg.ONE}),
                               "reference-" + names[a], where)
                    s.untouched(gd, "strain-measure")
                chk.scenario("%s-%s[%s]" % (which, kn, "one" if t is None else tname(t)), run)


# -- third-order deformation ----------------------------------------------------------------------

TOD = [("C10", 1, 0), ("C01", 0, 1), ("C11", 1, 1), ("C20", 2, 0), ("C30", 3, 0)]


def tod_energy(cs, u):
    i1, i2 = alg.var("I1_"), alg.var("I2_")
    W = alg.ZERO
    for nm, a, b in TOD:
        if nm in cs:
            W = W + cs[nm] * (i1 - u) ** a * (i2 - u) ** b
    x = [i1.is_var().idx, i2.is_var().idx]
    g = [alg.diff(W, x[0]), alg.diff(W, x[1]), alg.ZERO]
    h = [alg.diff(g[0], x[0]), alg.diff(g[1], x[1]), alg.ZERO, alg.diff(g[0], x[1]),
         alg.ZERO, alg.ZERO]
    return x, g, h


def evaluate_other(s, md, args):
    """Another model is evaluated first (at the same point)."""
    old = stubs.token("state of the other model")
    for what in ("gradient", "hessian"):
        s.method(md, what, *args, old)


def third_order(chk):
    """C18: the third-order-deformation model."""
    alln = tuple(x[0] for x in TOD)
    sets = [alln] + [(x,) for x in alln] + [("C10", "C01"), ("C11", "C30"), ()]
    for names in sets:
        for strain in (None, False, True, 1, 0):
            for t in ([(n,), ()] if names == alln else [(n,)]):
                def run(s, names=names, strain=strain, t=t, before=False):
                    cs = {x: alg.var(x, pos=before) for x in names}
                    kw = dict(cs)
                    if strain is not None:
                        kw["strain"] = strain
                    md = s.call(MODELS + ".invariants.ThirdOrderDeformation", **kw)
                    where = s.where_of(md)
                    x, g, h = tod_energy(cs, 0 if strain else 3)
                    I = [input_array("I%d" % (a + 1), t) for a in range(3)]
                    if not t:
                        I = [a.data[()] for a in I]
                    old = stubs.token("old state")
                    gd = s.guard(*[a for a in I if isinstance(a, AArray)])
                    if before:
                        for flag in (True, False):
                            evaluate_other(s, s.call(
                                MODELS + ".invariants.ThirdOrderDeformation", strain=flag,
                                **{k: alg.var("other " + k, pos=True) for k in names}),
                                I)

                    def sub(e, p):
                        return alg.subst(e, {x[a]: stubs.value(I[a], p) for a in range(2)})

                    r = s.method(md, "gradient", *I, old)
                    if not s.require(isinstance(r, (tuple, list)) and len(r) == 4,
                                     "gradient-values", "gradient returns %r" % (r,), where):
                        return
                    for a in range(3):
                        s.array(arr(0 if r[a] is None else r[a]), (), t,
                                lambda p, a=a: sub(g[a], p), "dWdI%d" % (a + 1), loose=True,
                                where=where)
                    s.require(r[3] is old, "state-variables", "the state variables are not "
                              "passed through", where)
                    first = [y is not None for y in r[:3]]
                    r = s.method(md, "hessian", *I, old)
                    if not s.require(isinstance(r, (tuple, list)) and len(r) == 6,
                                     "hessian-values", "hessian returns %r" % (r,), where):
                        return
                    for m, (a, b) in enumerate(stubs.PAIRS):
                        s.array(arr(0 if r[m] is None else r[m]), (), t,
                                lambda p, m=m: sub(h[m], p), "d2WdI%ddI%d" % (a + 1, b + 1),
                                loose=True, where=where)
                        s.require(r[m] is None or (first[a] and first[b]),
                                  "consistent-absence/%d%d" % (a + 1, b + 1),
                                  "a second derivative is given for an invariant whose first "
                                  "derivative is absent", where)
                    s.untouched(gd, "third-order")
                chk.scenario("third-order-%s-%s[%s]" % (
                    "+".join(names) or "none", {None: "default", False: "invariants",
                                                True: "strain"}[strain], tname(t)), run)
                if names == alln:
                    chk.scenario("third-order-after-another-%s[%s]" % (strain, tname(t)),
                                 lambda s, run=run: run(s, before=True))

    def composed(s, t, names):
        cs = {x: alg.var(x) for x in names}
        md = s.call(MODELS + ".invariants.ThirdOrderDeformation", **cs)
        fw = s.call(INV, md)
        C = sym("C", t)
        for p in points(t):
            alg.assume_positive(O.det3(O.full2(at(C, 1, p))))
        x, g, h = tod_energy(cs, 3)
        defs = {p: inv_defs([alg.topoly(y) for y in at(C, 1, p)]) for p in points(t)}
        old = stubs.token("old state")
        r, new = gradresult(s, s.method(fw, "gradient", C, old), "gradient")
        where = s.where_of(fw)

        def parts(p):
            I, dI, ddI = defs[p]
            m = {x[a]: I[a] for a in range(2)}
            return [alg.subst(y, m) for y in g], [alg.subst(y, m) for y in h], dI, ddI

        def want(p):
            gv, hv, dI, ddI = parts(p)
            return [sum((gv[k] * dI[k][a] for k in range(3)), alg.ZERO) for a in range(6)]

        s.array(r, (6,), t, want, "dWdC", loose=True, where=where)
        r = s.method(fw, "hessian", C, old)

        def want2(p):
            gv, hv, dI, ddI = parts(p)
            out = O.obj((6, 6))
            for a in range(6):
                for b in range(6):
                    y = sum((gv[k] * ddI[k][a][b] for k in range(3)), alg.ZERO)
                    for m, (k, l) in enumerate(stubs.PAIRS):
                        z = dI[k][a] * dI[l][b]
                        if k != l:
                            z = z + dI[l][a] * dI[k][b]
                        y = y + hv[m] * z
                    out[a, b] = y
            return out

        s.array(r, (6, 6), t, want2, "d2WdCdC", loose=True, where=where)

    for names in sets[1:-1]:
        chk.scenario("third-order-framework-%s" % "+".join(names),
                     lambda s, names=names: composed(s, (n,), names))


# -- Ogden ----------------------------------------------------------------------------------------


def ogden(chk):
    """C19: the Ogden model."""
    def run(s, t, N, kind, exps=None, mus=None, before=False):
        mu = [alg.var("mu%d" % k) for k in range(N)] if mus is None else mus
        al = [alg.var("alpha%d" % k) for k in range(N)] if exps is None else exps
        P = (lambda xs: list(xs)) if kind == "list" else (
            lambda xs: tuple(xs)) if kind == "tuple" else (lambda xs: npm.from_nested(list(xs)))
        pm, pa = P(mu), P(al)
        md = s.call(MODELS + ".stretches.Ogden", mu=pm, alpha=pa)
        where = s.where_of(md)
        lam = vec("lam", 3, t, pos=True)
        gd = s.guard(lam, *[x for x in (pm, pa) if isinstance(x, AArray)])
        old = stubs.token("old state")
        if before:
            for a, b in ((mu, [alg.var("other%d" % k) for k in range(N)]),
                         ([alg.var("other%d" % k) for k in range(N)], al)):
                evaluate_other(s, s.call(MODELS + ".stretches.Ogden", mu=P(a), alpha=P(b)),
                               [lam])
        x = alg.var("lambda_", pos=True)
        i = x.is_var().idx
        W = alg.ZERO
        for m, a in zip(mu, al):
            a = alg.topoly(a)
            W = W + 2 * m / a ** 2 * (x ** a - 1)
        d1 = alg.diff(W, i)
        d2 = alg.diff(d1, i)
        for rep in range(2):
            r, new = gradresult(s, s.method(md, "gradient", lam, old), "gradient")
            s.array(r, (3,), t, lambda p: [alg.subst(d1, {i: y}) for y in at(lam, 1, p)],
                    "dWdlambda", where=where)
            s.require(new is old, "state-variables", "the state variables are not passed "
                      "through", where)
            r = s.method(md, "hessian", lam, old)
            rows = r
            if isinstance(r, AArray):
                rows = [npm.getitem(r, k) for k in range(6)]
            if not s.require(isinstance(rows, (list, tuple)) and len(rows) == 6,
                             "hessian-values", "hessian returns %r" % (r,), where):
                return
            for m, (a, b) in enumerate(stubs.PAIRS):
                y = 0 if rows[m] is None else rows[m]
                s.array(arr(y), (), t, lambda p, a=a, b=b: alg.subst(
                    d2, {i: at(lam, 1, p)[a]}) if a == b else alg.ZERO,
                    "d2Wdlambda%d%d" % (a + 1, b + 1), loose=True, where=where)
        s.untouched(gd, "ogden")

    for t in traxes(chk):
        for N in (1, 2, 3):
            chk.scenario("ogden-%d[%s]" % (N, tname(t)),
                         lambda s, t=t, N=N: run(s, t, N, "list"))
    for kind in ("tuple", "array"):
        chk.scenario("ogden-%s" % kind, lambda s, kind=kind: run(s, (q, c), 2, kind))
        chk.scenario("ogden-after-another-%s" % kind,
                     lambda s, kind=kind: run(s, (n,), 2, kind, before=True))
    h = alg.const(Fraction(1, 2))
    for e in ([2, -2], [1], [h, -h], [4, 1, -3]):
        chk.scenario("ogden-exponents-%s" % "_".join(map(str, e)),
                     lambda s, e=e: run(s, (n,), len(e), "list", exps=e))

    # coinciding parameters: every term counts
    m, m1, a, a1 = (alg.var(x) for x in ("mu0", "mu1", "alpha0", "alpha1"))
    for nm, mus, e in (("moduli", [m, m], [a, a1]), ("exponents", [m, m1], [a, a]),
                       ("terms", [m, m], [a, a]), ("moduli-numbers", [h, h], [2, -2]),
                       ("opposite", [m, -m], [a, a1]), ("none", [], [])):
        for kind in ("list", "array"):
            if nm == "none" and kind == "array":
                continue
            chk.scenario("ogden-equal-%s-%s" % (nm, kind), lambda s, e=e, mus=mus, kind=kind:
                         run(s, (n,), len(e), kind, exps=e, mus=mus))

    # in the stretches framework: stress and tangent of the summed energy
    def composed(s, t, pattern):
        from .frameworks import eig_points, eig_rec, spectral, tolerance, limit_map
        s.it.eig_pattern = pattern
        mu, al = alg.var("mu0"), alg.var("alpha0", pos=True)
        md = s.call(MODELS + ".stretches.Ogden", mu=[mu], alpha=[al])
        fw = s.call(STR, md)
        C = sym("C", t)
        old = stubs.token("old state")
        x = alg.var("lambda_", pos=True)
        i = x.is_var().idx
        d1 = alg.diff(2 * mu / al ** 2 * (x ** al - 1), i)
        d2 = alg.diff(d1, i)
        r, _ = gradresult(s, s.method(fw, "gradient", C, old), "gradient")
        h = s.method(fw, "hessian", C, old)
        rs = {p: eig_rec(s, C, p) for p in points(t)}
        if any(v is None for v in rs.values()):
            s.violation("eigenproblem", "the principal stretches are not those of C")
            return
        eig_points(s)
        subs = tolerance(s, None, list(rs.values()), "hessian")

        def want(p):
            rec = rs[p]
            lam = [w ** Fraction(1, 2) for w in rec["w"]]
            g = [alg.subst(d1, {i: y}) for y in lam]
            hh = [alg.subst(d2, {i: lam[a]}) if a == b else alg.ZERO for a, b in stubs.PAIRS]
            return spectral(rec, g, hh, [pattern[a] for a in range(3)])

        s.array(r, (6,), t, lambda p: want(p)[0], "dWdC", where=s.where_of(fw))
        if not any(subs.values()):
            s.array(h, (6, 6), t, lambda p: want(p)[1], "d2WdCdC", where=s.where_of(fw))

    for pat in [(0, 1, 2), (0, 0, 2), (0, 0, 0)]:
        chk.scenario("ogden-framework-%s" % "".join(map(str, pat)),
                     lambda s, pat=pat: composed(s, (n,), pat))


# -- automatic differentiation --------------------------------------------------------------------

ENERGIES = '''
import torch

def neo_hooke(I1, I2, I3, C10):
    return C10 * (I1 - 3)

def mooney_rivlin(I1, I2, I3, C10, C01):
    return C10 * (I1 - 3) + C01 * (I2 - 3)

def yeoh(I1, I2, I3, C10, C20, C30):
    return C10 * (I1 - 3) + C20 * (I1 - 3) ** 2 + C30 * (I1 - 3) ** 3

def bilinear(I1, I2, I3, C11):
    return C11 * (I1 - 3) * (I2 - 3)

def separate(I1, I2, I3, a, b, c):
    return a * I1 ** 2 + b * I2 ** 3 + c * torch.log(I3) ** 2

def coupled(I1, I2, I3, a, K):
    return a * (I1 * I3 ** (-1 / 3) - 3) ** 2 + K * (torch.sqrt(I3) - 1) ** 2

def volumetric(I1, I2, I3, K):
    return K * (I3 - 1) ** 2

def second_only(I1, I2, I3, C01):
    return C01 * (I2 - 3)

def product(I1, I2, I3, a):
    return a * I1 * I2 * I3

def all_mixed(I1, I2, I3, a):
    return torch.exp(a * (I1 - 3)) * (I2 + I3) ** 2

def first(I1, I2, I3):
    return I1

def third(I1, I2, I3):
    return I3

def plain_product(I1, I2, I3):
    return I1 * I2

def half_square(I1, I2, I3):
    return I2 ** 2 / 2

def plain_sum(I1, I2, I3):
    return I1 + I2 + I3

def nothing(I1, I2, I3):
    return 0 * I1

def number(I1, I2, I3):
    return 0.0
'''


def oracle_energy(name):
    v = [alg.var("I%d_" % (k + 1), pos=True) for k in range(3)]
    p = {k: alg.var(k) for k in ("C10", "C01", "C11", "C20", "C30", "a", "b", "c", "K")}
    I1, I2, I3 = v
    h, t = alg.const(Fraction(1, 2)), alg.const(Fraction(-1, 3))
    W = {
        "neo_hooke": (lambda: p["C10"] * (I1 - 3), ["C10"]),
        "mooney_rivlin": (lambda: p["C10"] * (I1 - 3) + p["C01"] * (I2 - 3), ["C10", "C01"]),
        "yeoh": (lambda: p["C10"] * (I1 - 3) + p["C20"] * (I1 - 3) ** 2
                 + p["C30"] * (I1 - 3) ** 3, ["C10", "C20", "C30"]),
        "bilinear": (lambda: p["C11"] * (I1 - 3) * (I2 - 3), ["C11"]),
        "separate": (lambda: p["a"] * I1 ** 2 + p["b"] * I2 ** 3
                     + p["c"] * alg.app("log", I3) ** 2, ["a", "b", "c"]),
        "coupled": (lambda: p["a"] * (I1 * I3 ** t - 3) ** 2 + p["K"] * (I3 ** h - 1) ** 2,
                    ["a", "K"]),
        "volumetric": (lambda: p["K"] * (I3 - 1) ** 2, ["K"]),
        "second_only": (lambda: p["C01"] * (I2 - 3), ["C01"]),
        "product": (lambda: p["a"] * I1 * I2 * I3, ["a"]),
        "all_mixed": (lambda: alg.app("exp", p["a"] * (I1 - 3), pos=True) * (I2 + I3) ** 2,
                      ["a"]),
        "first": (lambda: I1, []),
        "third": (lambda: I3, []),
        "plain_product": (lambda: I1 * I2, []),
        "half_square": (lambda: h * I2 ** 2, []),
        "plain_sum": (lambda: I1 + I2 + I3, []),
        "nothing": (lambda: alg.ZERO, []),
        "number": (lambda: alg.ZERO, []),
    }
    f, names = W[name]
    return v, f(), {k: p[k] for k in names}


POLYNOMIAL = ("neo_hooke", "mooney_rivlin", "yeoh", "bilinear", "second_only", "product",
              "all_mixed")


def torch_model(chk):
    """C20: models given by an energy function in torch."""
    from .. import torchlib
    from .. import libs
    from itertools import combinations
    libs_env = {"torch": torchlib.module}
    proj = torchlib.with_source(chk.project, ENERGIES)
    assert libs

    def derivs(v, W):
        x = [y.is_var().idx for y in v]
        g = [alg.diff(W, i) for i in x]
        return x, g, [alg.diff(g[a], x[b]) for a, b in stubs.PAIRS]

    def md_fun(name, deps, s):
        if deps is None:
            return s.it.getattr(s.it.load("user_energies"), name)
        return torchlib.opaque(name, deps)

    def model(s, name, deps, other=""):
        if deps is None:
            v, W, kw = oracle_energy(name)
            kw = {k: alg.var(other + k) if other else x for k, x in kw.items()}
        else:
            v = [alg.var("I%d_" % (k + 1), pos=True) for k in range(3)]
            W, kw = alg.app(name, *[v[d] for d in deps]), {}
        fun = md_fun(name, deps, s)
        md = s.call(MODELS + ".invariants.TorchModel", fun, **kw)
        return md, derivs(v, W)

    def run(s, name, deps, t, order, pos=True, before=False, same=None):
        md, (x, g, h) = model(s, name, deps)
        where = s.where_of(md)
        I = [input_array("I%d" % (a + 1), t, pos=pos) for a in range(3)]
        if not t:
            I = [a.data[()] for a in I]
        gd = s.guard(*[a for a in I if isinstance(a, AArray)])
        old = stubs.token("old state")
        for keep in same or ():
            # the same model at points with some of the invariants in common
            J = [I[a] if a in keep else input_array("J%d" % (a + 1), t, pos=pos)
                 for a in range(3)]
            J = [a.data[()] if isinstance(a, AArray) and not t else a for a in J]
            for what in order:
                s.method(md, what, *J, old)
        if before:
            # another energy of the same name, the same energy with other parameters
            other = torchlib.opaque("other " + name, (0, 1, 2))
            other.name = md_fun(name, deps, s).name
            evaluate_other(s, s.call(MODELS + ".invariants.TorchModel", other), I)
            if deps is None:
                evaluate_other(s, model(s, name, deps, "other ")[0], I)

        def sub(e, p):
            return alg.subst(e, {x[a]: stubs.value(I[a], p) for a in range(3)})

        for what in order:
            r = s.method(md, what, *I, old)
            cnt = 4 if what == "gradient" else 6
            if not s.require(isinstance(r, (tuple, list)) and len(r) == cnt, what + "-values",
                             "%s returns %r" % (what, r), where):
                return
            if what == "gradient":
                s.require(r[3] is old, "state-variables", "the state variables are not passed "
                          "through", where)
            for k in range(3 if what == "gradient" else 6):
                y = 0 if r[k] is None else r[k]
                if isinstance(y, torchlib.TTensor):
                    s.violation(what + "-array", "%s returns a tensor instead of an array"
                                % what, where)
                    continue
                e = g[k] if what == "gradient" else h[k]
                lab = "dWdI%d" % (k + 1) if what == "gradient" else \
                    "d2WdI%ddI%d" % tuple(z + 1 for z in stubs.PAIRS[k])
                s.array(arr(y), (), t, lambda p: sub(e, p), lab, loose=True, where=where)
        s.untouched(gd, "torch")

    names = ["neo_hooke", "mooney_rivlin", "yeoh", "bilinear", "separate", "coupled",
             "volumetric", "second_only", "product", "all_mixed", "first", "third",
             "plain_product", "half_square", "plain_sum", "nothing", "number"]
    for t in [(), (n,), (q, c), (1, 1), THREE] + sized(chk):
        for nm in names:
            chk.scenario("torch-%s[%s]" % (nm, tname(t)), lambda s, nm=nm, t=t: run(
                s, nm, None, t, ["gradient", "hessian", "gradient"]),
                libs_env=libs_env, project=proj)
        if t in [(), (n,)]:
            # also at invariants which are zero or negative
            for nm in POLYNOMIAL:
                chk.scenario("torch-%s-any[%s]" % (nm, tname(t)), lambda s, nm=nm, t=t: run(
                    s, nm, None, t, ["gradient", "hessian"], ()),
                    libs_env=libs_env, project=proj)
        if t in [(), (n,)]:
            for keep in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2), ()):
                chk.scenario("torch-all_mixed-again-%s[%s]" % (
                    "".join("I%d" % (a + 1) for a in keep) or "elsewhere", tname(t)),
                    lambda s, keep=keep, t=t: run(s, "all_mixed", None, t,
                                                  ["gradient", "hessian"], same=[keep]),
                    libs_env=libs_env, project=proj)
            for nm in ("mooney_rivlin", "bilinear", "volumetric", "all_mixed"):
                chk.scenario("torch-%s-after-another[%s]" % (nm, tname(t)),
                             lambda s, nm=nm, t=t: run(s, nm, None, t, ["gradient", "hessian"],
                                                       before=True),
                             libs_env=libs_env, project=proj)
            chk.scenario("torch-any-energy-after-another[%s]" % tname(t),
                         lambda s, t=t: run(s, "W", (0, 1, 2), t, ["gradient", "hessian"],
                                            before=True),
                         libs_env=libs_env, project=proj)
        for k in (1, 2, 3):
            for deps in combinations(range(3), k):
                chk.scenario("torch-any-energy-of-%s[%s]" % (
                    "".join("I%d" % (d + 1) for d in deps), tname(t)),
                    lambda s, deps=deps, t=t: run(s, "W", deps, t, ["hessian", "gradient"]),
                    libs_env=libs_env, project=proj)

    def composed(s, name, t):
        md, (x, g, h) = model(s, name, None)
        fw = s.call(INV, md)
        C = sym("C", t)
        defs = {}
        for p in points(t):
            alg.assume_positive(O.det3(O.full2(at(C, 1, p))))
            defs[p] = inv_defs([alg.topoly(y) for y in at(C, 1, p)])
        old = stubs.token("old state")
        r, _ = gradresult(s, s.method(fw, "gradient", C, old), "gradient")
        hh = s.method(fw, "hessian", C, old)
        for p in points(t):
            m = {x[a]: defs[p][0][a] for a in range(3)}
            defs[p] += ([alg.subst(y, m) for y in g], [alg.subst(y, m) for y in h])

        def want(p):
            _, dI, ddI, gv, hv = defs[p]
            return [sum((gv[k] * dI[k][a] for k in range(3)), alg.ZERO) for a in range(6)]

        def want2(p):
            _, dI, ddI, gv, hv = defs[p]
            out = O.obj((6, 6))
            for a in range(6):
                for b in range(6):
                    y = sum((gv[k] * ddI[k][a][b] for k in range(3)), alg.ZERO)
                    for m, (k, l) in enumerate(stubs.PAIRS):
                        z = dI[k][a] * dI[l][b]
                        if k != l:
                            z = z + dI[l][a] * dI[k][b]
                        y = y + hv[m] * z
                    out[a, b] = y
            return out

        s.array(r, (6,), t, want, "dWdC", loose=True, where=s.where_of(fw))
        s.array(hh, (6, 6), t, want2, "d2WdCdC", loose=True, where=s.where_of(fw))

    for nm in ("mooney_rivlin", "bilinear", "yeoh", "volumetric"):
        for t in [(), (n,)]:
            chk.scenario("torch-framework-%s[%s]" % (nm, tname(t)),
                         lambda s, nm=nm, t=t: composed(s, nm, t), libs_env=libs_env,
                         project=proj)


assert np and dlen and TRAX
