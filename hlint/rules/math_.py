"""Tensor algebra in reduced storage."""

from fractions import Fraction

import numpy as np

from .. import absval
from .. import alg
from .. import npm
from .. import oracle as O
from ..absval import AArray, dlen, input_array
from ..alg import topoly
from ..inputs import (c, n, q, MIXED, MIXED_MORE, THREE, TRAX, sized, at, bdims, mat, sym, symtensor,
                      tensor4, tname, vec)

M = "hyperelastic.math."


def floats(make, *args):
    """A floating-point array, also where generic inputs are integer-valued."""
    with absval.floating():
        return make(*args)


def traxes(chk):
    return TRAX + [THREE] + sized(chk)


def mixed(chk):
    return MIXED_MORE if chk.tier == "thorough" else MIXED


def full_is_small(t):
    return all(not isinstance(d, int) or d <= 3 for d in t)


def each(chk, name, body, trs=None):
    for t in trs if trs is not None else traxes(chk):
        chk.scenario("%s[%s]" % (name, tname(t)), lambda s, t=t: body(s, t))


def storage(chk):
    """C01: conversions between full and reduced storage."""
    def to_voigt(s, t):
        T = symtensor("T", t)
        g = s.guard(T)
        r = s.call(M + "asvoigt", T)
        s.array(r, (6,), t, lambda p: O.voigt2(at(T, 2, p)), "asvoigt-2")
        r2 = s.call(M + "asvoigt", T, mode=2)
        s.array(r2, (6,), t, lambda p: O.voigt2(at(T, 2, p)), "asvoigt-mode2")
        s.untouched(g, "asvoigt")

    def to_tensor(s, t):
        A = sym("A", t)
        g = s.guard(A)
        r = s.call(M + "astensor", A)
        s.array(r, (3, 3), t, lambda p: O.full2(at(A, 1, p)), "astensor-2")
        b = s.call(M + "asvoigt", r)
        s.array(b, (6,), t, lambda p: at(A, 1, p), "roundtrip-2")
        s.untouched(g, "astensor")

    def to_voigt4(s, t):
        T = tensor4("T", t)
        g = s.guard(T)
        r = s.call(M + "asvoigt", T, mode=4)
        s.array(r, (6, 6), t, lambda p: O.voigt4(at(T, 4, p)), "asvoigt-4")
        s.untouched(g, "asvoigt4")

    def to_tensor4(s, t):
        A = mat("P", t)
        g = s.guard(A)
        r = s.call(M + "astensor", A, mode=4)
        s.array(r, (3, 3, 3, 3), t, lambda p: O.full4(at(A, 2, p)), "astensor-4")
        b = s.call(M + "asvoigt", r, mode=4)
        s.array(b, (6, 6), t, lambda p: at(A, 2, p), "roundtrip-4")
        s.untouched(g, "astensor4")

    each(chk, "asvoigt", to_voigt)
    each(chk, "astensor", to_tensor)
    each(chk, "asvoigt-4", to_voigt4)
    each(chk, "astensor-4", to_tensor4)


def mat_(name, t, dim):
    return input_array(name, (dim, dim) + t)


def triangles(chk):
    """C02: symmetric completion from one triangle."""
    def fill(dim, lower_from_upper):
        def body(s, t):
            A = input_array("A", (dim, dim) + t)
            g = s.guard(A)
            f = "tril_from_triu" if lower_from_upper else "triu_from_tril"

            def want(p):
                a = at(A, 2, p)
                w = O.obj((dim, dim))
                for i in range(dim):
                    for j in range(dim):
                        lo, hi = min(i, j), max(i, j)
                        w[i, j] = a[lo, hi] if lower_from_upper else a[hi, lo]
                return w

            kw = {} if dim == 6 else {"dim": dim}
            r = s.call(M + f, A, **kw)
            s.array(r, (dim, dim), t, want, f)
            s.untouched(g, f)
            out = input_array("B", (dim, dim) + t)
            for i in range(dim):
                for j in range(dim):
                    if (j >= i) == lower_from_upper or i == j:
                        out.data[i, j] = A.data[i, j]
            r = s.call(M + f, A, out=out, **kw)
            s.array(r, (dim, dim), t, want, f + "-out")
            s.array(out, (dim, dim), t, want, f + "-out-memory")
            s.untouched(g, f + "-out")
            # any output array: the other triangle comes from the source, not from the output
            out = floats(mat_, "junk", t, dim)
            old = out.data.copy()
            r = s.call(M + f, A, out=out, **kw)
            s.require(r is out or r is not None and np.shares_memory(r.data, out.data),
                      f + "-out-result", "the given output array is not returned")
            pick = np.zeros((dim, dim), dtype=bool)
            for i in range(dim):
                for j in range(dim):
                    pick[i, j] = (j < i) == lower_from_upper and i != j

            def filled(p):
                w = want(p)
                for i in range(dim):
                    for j in range(dim):
                        x = out.data[(i, j) + p]
                        if not pick[i, j] and (x is old[(i, j) + p] or x == old[(i, j) + p]):
                            w[i, j] = topoly(x)
                return w

            s.array(out, (dim, dim), t, filled, f + "-any-out")
            s.untouched(g, f + "-any-out")
            # in place
            ref = [want(p) for p in np.ndindex(*tuple(dlen(d) for d in t))]
            ref = dict(zip(np.ndindex(*tuple(dlen(d) for d in t)), ref))
            s.call(M + f, A, out=A, **kw)
            s.array(A, (dim, dim), t, lambda p: ref[p], f + "-in-place")
        return body

    for dim in (6, 3, 2, 4, 8):
        for up in (True, False):
            each(chk, "triangle%d%s" % (dim, "u" if up else "l"), fill(dim, up),
                 [(), (dim,)] + [t for t in traxes(chk) if t][:3] if dim in (3, 6)
                 else [(n,)])


def contractions(chk):
    """C03: traces, single and double contractions, deviator, identity, transposition."""
    def unary(s, t):
        A = sym("A", t)
        g = s.guard(A)
        s.array(s.call(M + "trace", A), (), t, lambda p: O.tr(O.full2(at(A, 1, p))), "trace")

        def dev(p):
            T = O.full2(at(A, 1, p))
            return O.voigt2(np.array([[T[i, j] - O.delta(i, j) * O.tr(T) * Fraction(1, 3)
                                       for j in range(3)] for i in range(3)], dtype=object))

        s.array(s.call(M + "dev", A), (6,), t, dev, "dev")
        one = [1, 1, 1, 0, 0, 0]
        s.array(s.call(M + "eye", A), (6,), (1,) * len(t), lambda p: [alg.const(x) for x in one],
                "eye")
        e = s.call(M + "eye")
        s.array(e, (6,), (), lambda p: [alg.const(x) for x in one], "eye-default")
        if isinstance(e, AArray):
            s.require(e.dtype == "f", "eye-dtype", "the identity is not a float array")
        s.untouched(g, "unary")

    def transp(s, t):
        P = mat("P", t)
        g = s.guard(P)
        r = s.call(M + "transpose", P)
        s.array(r, (6, 6), t, lambda p: at(P, 2, p).T, "transpose")
        s.untouched(g, "transpose")

    def double(s, ta, tb):
        t = bdims(ta, tb)
        A, B, P, Q = sym("A", ta), sym("B", tb), mat("P", ta), mat("Q", tb)
        g = s.guard(A, B, P, Q)

        def w22(p, A=A, B=B):
            return O.ddot22(O.full2(at(A, 1, p)), O.full2(at(B, 1, p)))

        def w44(p, P=P, Q=Q):
            X, Y = O.full4(at(P, 2, p)), O.full4(at(Q, 2, p))
            Z = O.obj((6, 6))
            for a, (i, j) in enumerate(O.ORDER):
                for b, (k, l) in enumerate(O.ORDER):
                    Z[a, b] = O.ddot22(X[i, j], Y[:, :, k, l])
            return Z

        def w24(p):
            a, Y = O.full2(at(A, 1, p)), O.full4(at(Q, 2, p))
            return [O.ddot22(a, Y[:, :, k, l]) for k, l in O.ORDER]

        def w42(p):
            X, b = O.full4(at(P, 2, p)), O.full2(at(B, 1, p))
            return [O.ddot22(X[k, l], b) for k, l in O.ORDER]

        s.array(s.call(M + "ddot", A, B), (), t, w22, "ddot-22")
        s.array(s.call(M + "ddot", A, B, mode=(2, 2)), (), t, w22, "ddot-mode22")
        s.array(s.call(M + "ddot", A, A), (), ta, lambda p: w22(p, A, A), "ddot-self")
        s.array(s.call(M + "ddot", A, Q, mode=(2, 4)), (6,), t, w24, "ddot-24")
        s.array(s.call(M + "ddot", P, B, mode=(4, 2)), (6,), t, w42, "ddot-42")
        if full_is_small(t):
            s.array(s.call(M + "ddot", P, Q, mode=(4, 4)), (6, 6), t, w44, "ddot-44")
            s.array(s.call(M + "ddot", P, P, mode=(4, 4)), (6, 6), ta,
                    lambda p: w44(p, P, P), "ddot-44-self")
        s.array(s.call(M + "dot", A, B), (3, 3), t,
                lambda p: O.dot2(O.full2(at(A, 1, p)), O.full2(at(B, 1, p))), "dot")
        s.array(s.call(M + "dot", A, A), (3, 3), ta,
                lambda p: O.dot2(O.full2(at(A, 1, p)), O.full2(at(A, 1, p))), "dot-self")
        s.untouched(g, "contract")

    each(chk, "unary", unary)
    each(chk, "transpose", transp)
    for t in traxes(chk):
        chk.scenario("contract[%s]" % tname(t), lambda s, t=t: double(s, t, t))
    for a, b in mixed(chk):
        chk.scenario("contract[%s,%s]" % (tname(a), tname(b)),
                     lambda s, a=a, b=b: double(s, a, b))


def w_cdya(X, Y, perm):
    Z = O.obj((3, 3, 3, 3))
    for i, j, k, l in np.ndindex(3, 3, 3, 3):
        if perm == "ik":
            Z[i, j, k, l] = X[i, k] * Y[j, l]
        else:
            Z[i, j, k, l] = X[i, l] * Y[k, j]
    return Z


def w_cdya_sym(X, Y):
    """Symmetrised crossed product in reduced storage."""
    Z = O.obj((6, 6))
    h = Fraction(1, 4)
    for a, (i, j) in enumerate(O.ORDER):
        for b, (k, l) in enumerate(O.ORDER):
            Z[a, b] = (X[i, k] * Y[j, l] + X[i, l] * Y[k, j]
                       + Y[i, k] * X[j, l] + Y[i, l] * X[k, j]) * h
    return Z


def products(chk):
    """C04: dyadic and crossed dyadic products."""
    def prod(s, ta, tb, A=None, B=None):
        t = bdims(ta, tb)
        if A is None:
            A, B = sym("A", ta), sym("B", tb)
        g = s.guard(A, B)
        X = lambda p: O.full2(at(A, 1, p))  # noqa: E731
        Y = lambda p: O.full2(at(B, 1, p))  # noqa: E731

        def wdya(p, U=A, V=B):
            u, v = at(U, 1, p), at(V, 1, p)
            return np.array([[u[i] * v[j] for j in range(6)] for i in range(6)], dtype=object)

        s.array(s.call(M + "dya", A, B), (6, 6), t, wdya, "dya")
        s.array(s.call(M + "dya", A, A), (6, 6), ta, lambda p: wdya(p, A, A), "dya-self")
        s.array(s.call(M + "cdya", A, B), (6, 6), t, lambda p: w_cdya_sym(X(p), Y(p)), "cdya")
        s.array(s.call(M + "cdya", A, A), (6, 6), ta, lambda p: w_cdya_sym(X(p), X(p)),
                "cdya-self")
        # equal tensors in different arrays
        A2 = AArray(A.data.copy(), A.dims, "f")
        s.array(s.call(M + "cdya", A, A2), (6, 6), ta, lambda p: w_cdya_sym(X(p), X(p)),
                "cdya-equal")
        if full_is_small(t):
            s.array(s.call(M + "cdya_ik", A, B), (3, 3, 3, 3), t,
                    lambda p: w_cdya(X(p), Y(p), "ik"), "cdya_ik")
            s.array(s.call(M + "cdya_il", A, B), (3, 3, 3, 3), t,
                    lambda p: w_cdya(X(p), Y(p), "il"), "cdya_il")
            for kind in ("ik", "il"):
                s.array(s.call(M + "cdya_" + kind, A, A), (3, 3, 3, 3), ta,
                        lambda p: w_cdya(X(p), X(p), kind), "cdya_%s-self" % kind)
        s.untouched(g, "products")

    for t in traxes(chk):
        chk.scenario("product[%s]" % tname(t), lambda s, t=t: prod(s, t, t))
    for a, b in mixed(chk):
        chk.scenario("product[%s,%s]" % (tname(a), tname(b)),
                     lambda s, a=a, b=b: prod(s, a, b))

    def views(s, t, kind):
        """Different tensors which are views into one array."""
        if kind == "overlap":
            X = vec("X", 8, t)
            a, b = X.data[:6], X.data[2:]
        elif kind == "interleaved":
            X = vec("X", 6, (2,) + t)
            a, b = X.data[:, 0], X.data[:, 1]
        else:
            X = sym("X", t)
            a, b = X.data, X.data[::-1]
        prod(s, t, t, AArray(a, (6,) + t, X.dtype), AArray(b, (6,) + t, X.dtype))

    for kind in ("overlap", "interleaved", "reversed"):
        for t in [(), (n,)]:
            chk.scenario("product-%s[%s]" % (kind, tname(t)),
                         lambda s, t=t, kind=kind: views(s, t, kind))

    def with_out(s, t):
        A, B = sym("A", t), sym("B", t)
        g = s.guard(A, B)
        X, Y = (lambda p: O.full2(at(A, 1, p))), (lambda p: O.full2(at(B, 1, p)))
        o = floats(mat, "junk", t)
        r = s.call(M + "dya", A, B, out=o)

        def wdya(p):
            u, v = at(A, 1, p), at(B, 1, p)
            return np.array([[u[i] * v[j] for j in range(6)] for i in range(6)], dtype=object)

        s.array(r, (6, 6), t, wdya, "dya-out")
        s.array(o, (6, 6), t, wdya, "dya-out-memory")
        o = floats(mat, "junk", t)
        r = s.call(M + "cdya", A, B, out=o)
        s.array(r, (6, 6), t, lambda p: w_cdya_sym(X(p), Y(p)), "cdya-out")
        s.array(o, (6, 6), t, lambda p: w_cdya_sym(X(p), Y(p)), "cdya-out-memory")
        for kind in ("ik", "il"):
            o = floats(mat, "junk", t)
            r = s.call(M + "cdya_" + kind, A, B, out=o)
            s.array(r, (3, 3, 3, 3), t, lambda p: w_cdya(X(p), Y(p), kind),
                    "cdya_%s-out" % kind)
        s.untouched(g, "products-out")

    each(chk, "product-out", with_out, [t for t in traxes(chk) if full_is_small(t)])


def inverse(chk):
    """C05: determinant and inverse."""
    def body(s, t):
        # nothing is known of the tensor but that it is invertible
        A = sym("A", t)
        g = s.guard(A)
        for p in np.ndindex(*tuple(dlen(d) for d in t)):
            s.it.learn(absval.c_eq0(O.det3(O.full2(at(A, 1, p)))), False)
        D = s.call(M + "det", A)
        s.array(D, (), t, lambda p: O.det3(O.full2(at(A, 1, p))), "det")

        def winv(p):
            T = O.full2(at(A, 1, p))
            return O.voigt2(O.inv3(T))

        s.array(s.call(M + "inv", A), (6,), t, winv, "inv")
        s.untouched(g, "inv")
        J = input_array("J", t) if t else alg.var("J")
        gj = s.guard(J) if t else []

        def wadj(p):
            T = O.full2(at(A, 1, p))
            return O.voigt2(O.inv3(T, J.data[p] if t else J))

        r = s.call(M + "inv", A, determinant=J)
        s.array(r, (6,), t, wadj, "inv-determinant")
        s.untouched(g + gj, "inv-determinant")
        o = floats(sym, "junk", t)
        r = s.call(M + "inv", A, out=o)
        s.array(r, (6,), t, winv, "inv-out")
        s.array(o, (6,), t, winv, "inv-out-memory")
        s.untouched(g, "inv-out")
        o = floats(sym, "junk", t)
        r = s.call(M + "inv", A, determinant=J, out=o)
        s.array(r, (6,), t, wadj, "inv-determinant-out")
        s.array(o, (6,), t, wadj, "inv-determinant-out-memory")
        s.untouched(g + gj, "inv-determinant-out")
        # the inverse is fresh memory: writing to it must not reach the argument
        r = s.call(M + "inv", A)
        if isinstance(r, AArray):
            s.require(not np.shares_memory(r.data, A.data), "inv-alias",
                      "the inverse shares memory with its argument")

    each(chk, "inverse", body)

    def broadcast(s, ta, tj):
        """A determinant which broadcasts against the tensor."""
        A = sym("A", ta)
        J = input_array("J", tj) if tj else alg.var("J")
        r = s.call(M + "inv", A, determinant=J)
        s.array(r, (6,), ta, lambda p: O.voigt2(O.inv3(O.full2(at(A, 1, p)), at(J, 0, p)
                                                      if tj else J)), "inv-determinant")

    for ta, tj in [((n,), ()), ((n,), (1,)), ((q, c), ()), ((q, c), (1, 1)), ((q, c), (q, 1)),
                   ((q, c), (1, c)), (THREE, (1, 1, 1))]:
        chk.scenario("inverse-determinant[%s,%s]" % (tname(ta), tname(tj)),
                     lambda s, ta=ta, tj=tj: broadcast(s, ta, tj))


def eigen(chk):
    """C06: eigenvalues and eigenbases."""
    def body(s, t, fun):
        it = s.it
        A = sym("A", t)
        g = s.guard(A)
        calls = []

        def f(i, a, k):
            calls.append(a)
            return i.call(i.load("numpy").ns["sqrt"], a, k)

        from ..absval import HostFunc
        if fun == "any":
            # any function of the eigenvalues of a tensor which need not be positive definite
            it.eig_pos = False

            def f(i, a, k):
                calls.append(a)
                return npm.elementwise(lambda x: alg.app("fun", topoly(x)), [a[0]], "f")

        args = {"fun": HostFunc("fun", f)} if fun else {}
        r = s.call(M + "eigh", A, **args)
        if not (isinstance(r, (tuple, list)) and len(r) == 2):
            s.violation("eigh", "result is not a pair (eigenvalues, eigenbases)")
            return
        w, B = r

        def rec(p):
            T = O.full2(at(A, 1, p))
            key = tuple(T[i, j] for i in range(3) for j in range(i + 1))
            e = it.eig.get(key)
            if e is None or not e["sym"]:
                return None
            return e

        pts = list(np.ndindex(*tuple(dlen(d) for d in t)))
        if any(rec(p) is None for p in pts):
            keys = [tuple(str(x) for x in k) for k in it.eig]
            s.violation("eigh-matrix", "the eigenvalue problem is not posed for the symmetric "
                        "matrix of the tensor's components but for %s" % (keys[:1],),
                        next((e["site"] for e in it.eig.values()), None))
            return
        h = Fraction(1, 2)
        s.array(w, (3,), t, lambda p: [alg.app("fun", topoly(x)) if fun == "any" else
                                       x ** h if fun else x for x in rec(p)["w"]],
                "eigenvalues" + ("-fun" if fun else ""))

        def bases(p):
            v = rec(p)["v"]
            return np.array([[v[i, a] * v[j, a] for i, j in O.ORDER] for a in range(3)],
                            dtype=object)

        s.array(B, (3, 6), t, bases, "eigenbases" + ("-fun" if fun else ""))
        s.untouched(g, "eigh")

    for t in traxes(chk):
        for fun in (False, True, "any"):
            chk.scenario("eigh%s[%s]" % ("-any" if fun == "any" else "-fun" if fun else "",
                                         tname(t)),
                         lambda s, t=t, fun=fun: body(s, t, fun))


def integers(chk):
    """C07: integer-valued arrays give the results of equal floating-point arrays."""
    chk.integers, chk.prefix = True, "integers/"
    keep = TRAX[:], MIXED[:]
    try:
        if chk.tier != "thorough":
            TRAX[:] = [(n,)]
            MIXED[:] = MIXED[:1]
        for f in (storage, triangles, contractions, products, inverse, eigen):
            f(chk)

        def mixed_kinds(s, first):
            """One operand integer-valued, the other one floating-point."""
            t = (n,)
            A, B = (sym("A", t), floats(sym, "B", t))[::1 if first else -1]
            X, Y = O.full2(at(A, 1, (0,))), O.full2(at(B, 1, (0,)))
            g = s.guard(A, B)
            s.array(s.call(M + "dya", A, B), (6, 6), t, lambda p: [[topoly(A.data[i, 0]) * topoly(B.data[j, 0]) for j in range(6)] for i in range(6)], "dya")
            s.array(s.call(M + "cdya", A, B), (6, 6), t, lambda p: w_cdya_sym(X, Y), "cdya")
            for kind in ("ik", "il"):
                s.array(s.call(M + "cdya_" + kind, A, B), (3, 3, 3, 3), t,
                        lambda p: w_cdya(X, Y, kind), "cdya_" + kind)
            s.array(s.call(M + "ddot", A, B), (), t, lambda p: O.ddot22(X, Y), "ddot")
            s.array(s.call(M + "dot", A, B), (3, 3), t, lambda p: X.dot(Y), "dot")
            Q, R = (mat("Q", t), floats(mat, "R", t))[::1 if first else -1]
            w = [1, 1, 1, 2, 2, 2]
            qa, ra = at(Q, 2, (0,)), at(R, 2, (0,))
            xa, ya = at(A, 1, (0,)), at(B, 1, (0,))
            s.array(s.call(M + "ddot", A, R, mode=(2, 4)), (6,), t, lambda p: [
                sum((xa[i] * ra[i, j] * w[i] for i in range(6)), alg.ZERO) for j in range(6)],
                "ddot-24")
            s.array(s.call(M + "ddot", Q, B, mode=(4, 2)), (6,), t, lambda p: [
                sum((qa[i, j] * ya[j] * w[j] for j in range(6)), alg.ZERO) for i in range(6)],
                "ddot-42")
            s.array(s.call(M + "ddot", Q, R, mode=(4, 4)), (6, 6), t, lambda p: [[
                sum((qa[i, k] * ra[k, j] * w[k] for k in range(6)), alg.ZERO)
                for j in range(6)] for i in range(6)], "ddot-44")
            s.untouched(g, "mixed")
        for first in (0, 1):
            chk.scenario("mixed-kinds-%d" % first, lambda s, f=first: mixed_kinds(s, f))
        from . import frameworks, spaces
        for parts in (("gradient",), ("hessian",)):
            chk.scenario("invariants-%s" % parts[0], lambda s, pt=parts: frameworks.inv_case(
                s, (n,), (1, 1, 1), (1,) * 6, "array", parts=pt))
            chk.scenario("stretches-%s" % parts[0], lambda s, pt=parts: frameworks.str_case(
                s, (n,), parts=pt))
        for which in spaces.SPACES:
            for parts in (("gradient",), ("gradient", "hessian")):
                chk.scenario("%s-%s" % (which, parts[-1]), lambda s, w=which, pt=parts:
                             spaces.case(s, w, (n,), parts=pt))
    finally:
        chk.integers, chk.prefix = False, ""
        TRAX[:], MIXED[:] = keep
