"""Isotropic frameworks: stress and tangent from invariants or principal stretches."""

from fractions import Fraction

import numpy as np

from .. import alg
from .. import oracle as O
from .. import stubs
from ..absval import AArray, HostFunc, HostObj, dlen
from ..inputs import sized, THREE, TRAX, at, c, n, q, sym, tname, vec

H = Fraction(1, 2)
INV = "hyperelastic.InvariantsFramework"
STR = "hyperelastic.StretchesFramework"
GEN = "hyperelastic.GeneralizedInvariantsFramework"


def traxes(chk):
    return TRAX + [THREE] + sized(chk)


def points(t):
    return np.ndindex(*tuple(dlen(d) for d in t))


def inv_defs(Cv):
    """Invariants and their formal derivatives w.r.t. the tensor components."""
    T = O.full2(Cv)
    I = [O.tr(T), (O.tr(T) ** 2 - O.ddot22(T, T)) * H, O.det3(T)]
    idx = [x.is_var().idx for x in Cv]
    dI = [O.d_voigt(p, idx) for p in I]
    ddI = [np.array([O.d_voigt(dI[k][a], idx) for a in range(6)], dtype=object)
           for k in range(3)]
    return I, dI, ddI


def gradresult(s, r, label):
    """Unpack (derivative, new state variables)."""
    if not (isinstance(r, (tuple, list)) and len(r) == 2):
        s.violation(label, "gradient does not return (derivative, new state variables) "
                    "but %r" % (r,))
        return None, None
    return r


def inv_case(s, t, first, second, kind, seq=tuple, parts=("gradient", "hessian"), fresh=True):
    C = sym("C", t)
    for p in points(t):
        alg.assume_positive(O.det3(O.full2(at(C, 1, p))))
    g = s.guard(C)
    old = stubs.token("old state")
    st = stubs.invariants_material(t, first, second, kind, seq=seq)
    fw = s.call(INV, st.obj)
    where = s.where_of(fw)
    defs = {p: inv_defs([alg.topoly(x) for x in at(C, 1, p)]) for p in points(t)}

    def check_args(what):
        calls = [a for a in st.calls if a[0] == what]
        s.require(len(calls) >= 1, "material-called/" + what,
                  "the material's %s is not evaluated" % what, where)
        for _, a, site in calls:
            for k in range(3):
                x = a.get("I%d" % (k + 1))
                s.array(x, (), t, lambda p, k=k: defs[p][0][k],
                        "invariant%d/%s" % (k + 1, what), where=site)

    if "gradient" in parts:
        r, new = gradresult(s, s.method(fw, "gradient", C, old), "gradient")
        check_args("gradient")

        def want(p):
            _, dI, _ = defs[p]
            return [sum((stubs.value(st.g[k], p) * dI[k][a] for k in range(3)), alg.ZERO)
                    for a in range(6)]

        s.array(r, (6,), t, want, "dWdC", loose=True, where=s.where_of(r) or where)
    if "hessian" in parts:
        if fresh:
            st.calls.clear()
            fw = s.call(INV, st.obj)
        r = s.method(fw, "hessian", C, old)
        check_args("hessian")

        def want4(p):
            _, dI, ddI = defs[p]
            out = O.obj((6, 6))
            for a in range(6):
                for b in range(6):
                    x = alg.ZERO
                    for k in range(3):
                        x = x + stubs.value(st.g[k], p) * ddI[k][a][b]
                    for m, (k, l) in enumerate(stubs.PAIRS):
                        h = stubs.value(st.h[m], p)
                        if not h.t:
                            continue
                        y = dI[k][a] * dI[l][b]
                        if k != l:
                            y = y + dI[l][a] * dI[k][b]
                        x = x + h * y
                    out[a, b] = x
            return out

        s.array(r, (6, 6), t, want4, "d2WdCdC", loose=True, where=s.where_of(r) or where)
    s.untouched(g, "invariants")


def inv_stress(chk):
    """C10: stress of an invariants-based energy."""
    for t in traxes(chk):
        for kind in ("array", "number", "unit"):
            chk.scenario("invariants-stress-%s[%s]" % (kind, tname(t)),
                         lambda s, t=t, kind=kind: inv_case(
                             s, t, (1, 1, 1), (1,) * 6, kind, parts=("gradient",)))
    # a model may answer with integer-valued arrays
    chk.scenario("invariants-stress-integer", lambda s: inv_case(
        s, (n,), (1, 1, 1), (1,) * 6, "integer", parts=("gradient",)))
    for m in range(3):
        one = tuple(1 if k == m else 0 for k in range(3))
        chk.scenario("invariants-stress-integer%d" % (m + 1), lambda s, f=one: inv_case(
            s, (n,), f, (1,) * 6, "integer", parts=("gradient",)))


def inv_tangent(chk):
    """C11: tangent of an invariants-based energy."""
    for t in traxes(chk):
        for kind in ("array", "number", "unit"):
            chk.scenario("invariants-tangent-%s[%s]" % (kind, tname(t)),
                         lambda s, t=t, kind=kind: inv_case(
                             s, t, (1, 1, 1), (1,) * 6, kind, parts=("hessian",)))
    chk.scenario("invariants-tangent-integer", lambda s: inv_case(
        s, (n,), (1, 1, 1), (1,) * 6, "integer", parts=("hessian",)))
    # each second derivative on its own, so that no two terms can hide one another
    for m in range(6):
        sec = tuple(1 if k == m else 0 for k in range(6))
        chk.scenario("invariants-tangent-only%d%d" % stubs.PAIRS[m],
                     lambda s, sec=sec: inv_case(s, (n,), (1, 1, 1), sec, "array",
                                                 parts=("hessian",)))


def consistent(first):
    """Second-derivative patterns for which an absent invariant has no second ones."""
    return tuple(1 if first[k] and first[l] else 0 for k, l in stubs.PAIRS)


def none_patterns(chk):
    pats = []
    for f in np.ndindex(2, 2, 2):
        pats.append((f, consistent(f)))
    for m in range(6):
        pats.append(((1, 1, 1), tuple(0 if k == m else 1 for k in range(6))))
    pats.append(((1, 1, 1), (0,) * 6))
    for f in [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1)]:
        pats.append((f, (0,) * 6))
    for sec in np.ndindex(*(2,) * 6):
        pats.append(((1, 1, 1), sec))
    for f in np.ndindex(2, 2, 2):
        own = consistent(f)
        for sec in np.ndindex(*(2,) * 6):
            if f != (1, 1, 1) and all(o or not k for o, k in zip(own, sec)):
                pats.append((f, sec))
    return list(dict.fromkeys(pats))


def none_protocol(chk):
    """C12: an absent derivative counts as zero."""
    for f, sec in none_patterns(chk):
        nm = "".join(map(str, f)) + "-" + "".join(map(str, sec))
        chk.scenario("none-invariants-%s" % nm,
                     lambda s, f=f, sec=sec: inv_case(s, (q, c), f, sec, "array", seq=list))
        chk.scenario("none-generalized-%s" % nm,
                     lambda s, f=f, sec=sec: gen_case(s, (n,), f, sec, "array"))
    for none in [(3, 4, 5), (0,), (1,), (2,), (3,), (4,), (5,), (0, 1, 2), (0, 1, 2, 3, 4, 5)]:
        chk.scenario("none-stretches-%s" % "".join(map(str, none)),
                     lambda s, none=none: str_case(s, (n,), none=none, kind="number"))
        chk.scenario("none-stretches-tuple-%s" % "".join(map(str, none)),
                     lambda s, none=none: str_case(s, (n,), none=none, as_list=tuple,
                                                   kind="number"))
        chk.scenario("none-stretches-array-%s" % "".join(map(str, none)),
                     lambda s, none=none: str_case(s, (n,), none=none))


# -- principal stretches --------------------------------------------------------------------


def eig_points(s):
    """Generic points at which the eigenvectors really are orthonormal."""
    for rec in s.it.eig.values():
        if rec.get("pts"):
            continue
        rec["pts"] = True
        for k, pt in enumerate(s.pts()):
            mp = pt.mp
            a, b, e = (pt.rnd(("cayley", str(rec["w"][0]), j)) for j in range(3))
            K = mp.matrix([[0, -e, b], [e, 0, -a], [-b, a, 0]])
            R = (mp.eye(3) + K) * (mp.eye(3) - K) ** -1
            wv = {}
            for j in range(3):
                i = rec["w"][j].is_var().idx
                wv[j] = pt.val.setdefault(i, pt.rnd(("w", str(rec["w"][j])), True))
                for r in range(3):
                    pt.val[rec["v"][r, j].is_var().idx] = R[r, j]
            for r in range(3):
                for q_ in range(r + 1):
                    x = alg.topoly(rec["matrix"][r, q_]).is_var()
                    if x is not None:
                        pt.val[x.idx] = sum(wv[j] * R[r, j] * R[q_, j] for j in range(3))
    if s.it.eig:
        s.given = {1: 1}


def eig_rec(s, C, p):
    T = O.full2(at(C, 1, p))
    e = s.it.eig.get(tuple(T[i, j] for i in range(3) for j in range(i + 1)))
    return e if e is not None and e["sym"] else None


def tolerance(s, st, recs, label):
    """Inspect the tests for coinciding stretches on this partition.  Returns the limit
    substitution for those taken as coinciding."""
    sub = {}
    for cnd, v, site in list(s.it.trace):
        base = cnd
        if base.neg:
            base, v = base.invert(), not v
        todo = [(base, v)]
        while todo:
            b, v = todo.pop()
            if b.kind in ("any", "exists"):
                # says nothing about a single point unless that is known on its own
                for x in b.args if b.kind == "any" else b.args[:1]:
                    if isinstance(x, type(b)) and (not v or s.it.truth_known(x) is True):
                        todo.append((x.invert() if x.neg else x, v != x.neg))
                continue
            if b.kind not in ("close", "eq0", "lt0"):
                continue
            ws = []
            for rec in recs:
                ids = {w.is_var().idx for w in rec["w"]}
                at_ = [i for q_ in b.args if isinstance(q_, alg.Poly)
                       for i in q_.atoms(deep=True)]
                if set(at_) & ids:
                    ws.append((rec, sorted(set(at_) & ids)))
            if not ws or not v:
                continue
            rec, ids = ws[0]
            if b.kind == "eq0":
                s.violation(label + "/tolerance", "coinciding stretches are only recognised "
                            "if exactly equal; rounding in the eigenvalues makes the "
                            "quotient of differences meaningless", site)
                continue
            if b.kind == "lt0":
                continue
            diff, ref, rtol, atol = b.args
            if len(ids) == 2 and not alg.subst(diff, {ids[1]: alg.Poly({((ids[0], 1),): 1})}).t:
                sub.setdefault(id(rec), []).append((rec, ids))
                rt, at_ = rtol.as_const(), atol.as_const()
                if rt is None or at_ is None:
                    s.unknown(label + "/tolerance", "tolerance is not a constant", site)
                    continue
                tot = at_ + rt * (1 if ref.t else 0)
                s.require(Fraction(1, 10**12) <= tot <= Fraction(1, 10**4),
                          label + "/tolerance", "the tolerance for coinciding stretches is "
                          "%g (accurate results need one between 1e-12 and 1e-4)"
                          % float(tot), site)
    return sub


def limit_map(st, trax, pt, rec, merged):
    """Substitution for the limit of coinciding stretches at a point: the eigenvalues
    become equal and an isotropic response becomes symmetric."""
    ids = [w.is_var().idx for w in rec["w"]]
    cls = list(range(3))
    for pair in merged:
        a, b = (ids.index(x) for x in pair)
        ca, cb = cls[a], cls[b]
        lo = min(ca, cb)
        cls = [lo if x in (ca, cb) else x for x in cls]
    m = {}
    for a in range(3):
        if cls[a] != a:
            m[ids[a]] = rec["w"][cls[a]]

    def put(x, y):
        if x is None or y is None:
            return
        v = stubs.value(x, pt).is_var()
        w = stubs.value(y, pt)
        if v is not None and w.is_var() is not v:
            m[v.idx] = w

    for a in range(3):
        put(st.g[a], st.g[cls[a]])
    rep = {}
    for k, (a, b) in enumerate(stubs.PAIRS):
        key = (tuple(sorted((cls[a], cls[b]))), a == b)
        if st.h[k] is None:
            continue
        if key in rep:
            put(st.h[k], rep[key])
        else:
            rep[key] = st.h[k]
    return m


def spectral(rec, g, h, classes):
    """First and second derivative of W(lambda(C)) by perturbation theory."""
    w, v = rec["w"], rec["v"]
    lam = [x ** H for x in w]
    Gw = [g[a] / (2 * lam[a]) for a in range(3)]

    def Mb(a):
        return [v[i, a] * v[j, a] for i, j in O.ORDER]

    def Sab(a, b):
        return [v[i, a] * v[j, b] + v[i, b] * v[j, a] for i, j in O.ORDER]

    Ms = [Mb(a) for a in range(3)]
    D = [sum((Gw[a] * Ms[a][k] for a in range(3)), alg.ZERO) for k in range(6)]
    hh = {}
    for k, (a, b) in enumerate(stubs.PAIRS):
        hh[a, b] = hh[b, a] = h[k]
    W2 = {}
    for a in range(3):
        for b in range(3):
            x = hh[a, b] / (4 * lam[a] * lam[b])
            if a == b:
                x = x - g[a] / (4 * lam[a] ** 3)
            W2[a, b] = x
    Q = O.obj((6, 6))
    pairs = {}
    for a in range(3):
        for b in range(a):
            if classes[a] == classes[b]:
                f = W2[a, a] - W2[a, b]
            else:
                f = (Gw[a] - Gw[b]) / (w[a] - w[b])
            pairs[a, b] = (f, Sab(a, b))
    for x in range(6):
        for y in range(6):
            z = alg.ZERO
            for a in range(3):
                for b in range(3):
                    z = z + W2[a, b] * Ms[a][x] * Ms[b][y]
            for f, S in pairs.values():
                z = z + f * S[x] * S[y] * H
            Q[x, y] = z
    return D, Q


def str_case(s, t, kind="array", as_list=True, none=(), pattern=(0, 1, 2),
             parts=("gradient", "hessian"), expect_tol=True):
    C = sym("C", t)
    s.it.eig_pattern = pattern
    g = s.guard(C)
    old = stubs.token("old state")
    st = stubs.stretches_material(t, kind, as_list, none, pattern)
    fw = s.call(STR, st.obj)
    where = s.where_of(fw)

    def recs():
        rs = {p: eig_rec(s, C, p) for p in points(t)}
        if any(r is None for r in rs.values()):
            s.violation("eigenproblem", "the principal stretches are not those of the right "
                        "Cauchy-Green tensor: eigenvalues of %s are used" %
                        [[str(x) for x in k] for k in s.it.eig][:1],
                        next((e["site"] for e in s.it.eig.values()), where))
            return None
        return rs

    def check_args(what, rs):
        calls = [a for a in st.calls if a[0] == what]
        s.require(len(calls) >= 1, "material-called/" + what,
                  "the material's %s is not evaluated" % what, where)
        for _, a, site in calls:
            s.array(a.get("stretches"), (3,), t, lambda p: [x ** H for x in rs[p]["w"]],
                    "stretches/" + what, where=site)

    for part in parts:
        st.calls.clear()
        fw = s.call(STR, st.obj)
        if part == "gradient":
            r, new = gradresult(s, s.method(fw, "gradient", C, old), "gradient")
        else:
            r = s.method(fw, "hessian", C, old)
        rs = recs()
        if rs is None:
            return
        check_args(part, rs)
        eig_points(s)
        w = s.where_of(r) or where
        subs = tolerance(s, st, list(rs.values()), part)
        cls = {}
        maps = {}
        if any(len({tuple(ids) for _, ids in subs.get(id(rec), [])}) == 2
               for rec in rs.values()):
            # a~b and b~c but not a~c: only possible at the edge of the tolerance; the
            # partitions on both sides of the edge are checked
            s.chk.boundary += 1
            continue
        for p in points(t):
            rec = rs[p]
            merged = [ids for _, ids in subs.get(id(rec), [])]
            if merged:
                lm = limit_map(st, t, p, rec, merged)
                maps[p] = lm
            ids = [x.is_var().idx for x in rec["w"]]
            k = [pattern[a] for a in range(3)]
            for pair in merged:
                a, b = (ids.index(x) for x in pair)
                lo, hi = min(k[a], k[b]), max(k[a], k[b])
                k = [lo if x == hi else x for x in k]
            cls[p] = k

        def lim(p, x):
            return alg.subst(alg.topoly(x), maps[p]) if p in maps else alg.topoly(x)

        def want(p):
            gv = [lim(p, stubs.value(x, p)) for x in st.g]
            hv = [lim(p, stubs.value(x, p)) for x in st.h]
            rec = rs[p]
            rec = dict(rec, w=[lim(p, x) for x in rec["w"]])
            return spectral(rec, gv, hv, cls[p])

        allm = {}
        for m in maps.values():
            allm.update(m)
        s.limit = allm
        if part == "gradient":
            s.array(r, (6,), t, lambda p: want(p)[0], "dWdC", where=w)
        else:
            s.array(r, (6, 6), t, lambda p: want(p)[1], "d2WdCdC", where=w)
        s.limit = {}
    s.untouched(g, "stretches")


def str_stress(chk):
    """C13: stress of a stretches-based energy."""
    for t in traxes(chk):
        for as_list in (True, False):
            chk.scenario("stretches-stress-%s[%s]" % (
                "list" if as_list else "array", tname(t)),
                lambda s, t=t, a=as_list: str_case(s, t, as_list=a, parts=("gradient",)))
    chk.scenario("stretches-stress-tuple", lambda s: str_case(s, (n,), as_list=tuple,
                                                              parts=("gradient",)))
    for as_list in (True, False):
        chk.scenario("stretches-stress-%s-integer" % ("list" if as_list else "array"),
                     lambda s, a=as_list: str_case(s, (n,), kind="integer", as_list=a,
                                                   parts=("gradient",)))


def str_tangent(chk):
    """C14: tangent of a stretches-based energy."""
    ts = [t for t in traxes(chk) if all(not isinstance(d, int) or d == 1 for d in t)]
    for t in ts:
        for as_list in (True, False):
            chk.scenario("stretches-tangent-%s[%s]" % ("list" if as_list else "array", tname(t)),
                         lambda s, t=t, a=as_list: str_case(s, t, as_list=a,
                                                            parts=("hessian",)))
    for as_list in (True, False):
        chk.scenario("stretches-tangent-%s-integer" % ("list" if as_list else "array"),
                     lambda s, a=as_list: str_case(s, (n,), kind="integer", as_list=a,
                                                   parts=("hessian",)))
    chk.scenario("stretches-tangent-tuple", lambda s: str_case(s, (n,), as_list=tuple,
                                                               parts=("hessian",)))
    chk.scenario("stretches-tangent-number", lambda s: str_case(s, (n,), kind="number",
                                                                parts=("hessian",)))


def coincident(chk):
    """C15: coinciding stretches."""
    for pat in [(0, 0, 2), (0, 1, 1), (0, 1, 0), (0, 0, 0)]:
        for t in [(), (n,), (1, 1), (q, c)]:
            for as_list in (True, False):
                chk.scenario("coincident-%s-%s[%s]" % ("".join(map(str, pat)),
                                                       "list" if as_list else "array", tname(t)),
                             lambda s, t=t, p=pat, a=as_list: str_case(
                                 s, t, pattern=p, as_list=a))
    # a list of points where only some have coinciding stretches
    chk.scenario("coincident-near", lambda s: str_case(s, (n,), parts=("hessian",)))
    chk.scenario("coincident-near-points", lambda s: str_case(s, (2,), parts=("hessian",)),
                 maxpaths=2000)


# -- generalised invariants -------------------------------------------------------------------


def strain_stub(name="E", other=None):
    """Any strain measure: E, E', E'' are uninterpreted functions of the stretch; the
    reference values are free."""
    ref = [alg.var(name + "ref%d" % k) for k in range(3)]
    calls = []

    def app(f, x):
        from .. import npm
        return npm.elementwise(lambda p: alg.app(f, alg.topoly(p)), [x], "f")

    def fn(it, a, k):
        x = a[0] if a else k.get("stretch", k.get("stretches"))
        if other is not None and k == other:
            # other parameters of the same measure
            return tuple(app("other" + d, x) for d in ("0", "1", "2")) + tuple(
                alg.var("otherref%d" % j) for j in range(3))
        calls.append((a, dict(k), it.site()))
        return tuple(app(name + d, x) for d in ("0", "1", "2")) + tuple(ref)

    return HostFunc("strain", fn), ref, calls


def gen_parts(lam, ref, name="E"):
    """E, E', E'' at the stretches and the coefficients c1, c2, J10, J20."""
    E = [[alg.app(name + d, x) for x in lam] for d in ("0", "1", "2")]
    e1 = [alg.app(name + d, alg.ONE) for d in ("0", "1", "2")]
    c1 = (Fraction(3, 2) * (ref[2] + ref[1])) / (Fraction(3, 2) * (e1[2] + e1[1]))
    num = Fraction(3, 2) * (2 * ref[0] * (ref[2] + ref[1]) - ref[1] ** 2)
    den = Fraction(3, 2) * (2 * e1[0] * (e1[2] + e1[1]) - e1[1] ** 2)
    c2 = num / den
    return E, c1, c2, 3 * e1[0], 3 * e1[0] ** 2


def gen_want(lam, ref, g, h):
    E, c1, c2, J10, J20 = gen_parts(lam, ref)
    X = [alg.var("X%d" % a) for a in range(3)]
    xi = [x.is_var().idx for x in X]
    J = [X[0] + X[1] + X[2], X[0] * X[1] + X[1] * X[2] + X[2] * X[0], X[0] * X[1] * X[2]]
    I = [c1 * (J[0] - J10) + J10, c2 * (J[1] - J20) + J20, J[2]]
    back = {xi[a]: E[0][a] for a in range(3)}
    d = [[alg.diff(I[k], xi[a]) for a in range(3)] for k in range(3)]
    dE = [sum((g[k] * d[k][a] for k in range(3)), alg.ZERO) for a in range(3)]
    first = [alg.subst(dE[a], back) * E[1][a] for a in range(3)]
    second = []
    for a, b in stubs.PAIRS:
        x = alg.ZERO
        for k in range(3):
            x = x + g[k] * alg.diff(d[k][a], xi[b])
        for m, (k, l) in enumerate(stubs.PAIRS):
            y = d[k][a] * d[l][b]
            if k != l:
                y = y + d[l][a] * d[k][b]
            x = x + h[m] * y
        x = alg.subst(x, back) * E[1][a] * E[1][b]
        if a == b:
            x = x + alg.subst(dE[a], back) * E[2][a]
        second.append(x)
    return [alg.subst(i, back) for i in I], first, second


def gen_case(s, t, first, second, kind, parts=("gradient", "hessian"), kwargs=None,
             before=False):
    st = stubs.invariants_material(t, first, second, kind)
    kw = kwargs or {}
    kw2 = {k: alg.var("other_" + k, pos=True) for k in kw}
    fun, ref, calls = strain_stub(other=kw2 if before == "parameters" else None)
    if before == "parameters":
        # another model with other parameters of the same strain measure
        m2 = s.call("hyperelastic.models.stretches.GeneralizedInvariantsModel", st.obj, fun,
                    **kw2)
        for what in ("gradient", "hessian"):
            s.method(m2, what, vec("lam", 3, t, pos=True), stubs.token("other state"))
        st.calls.clear()
    elif before:
        # another model with another strain measure of the same name
        m2 = s.call("hyperelastic.models.stretches.GeneralizedInvariantsModel",
                    stubs.invariants_material(t, prefix="other").obj,
                    strain_stub("D")[0], **kw)
        for what in ("gradient", "hessian"):
            s.method(m2, what, vec("other", 3, t, pos=True), stubs.token("other state"))
    md = s.call("hyperelastic.models.stretches.GeneralizedInvariantsModel", st.obj, fun, **kw)
    lam = vec("lam", 3, t, pos=True)
    gd = s.guard(lam)
    old = stubs.token("old state")
    where = s.where_of(md)

    def want(p):
        gv = [stubs.value(x, p) for x in st.g]
        hv = [stubs.value(x, p) for x in st.h]
        return gen_want(list(lam.data[(slice(None),) + p]), ref, gv, hv)

    for part in parts:
        st.calls.clear()
        if part == "gradient":
            r, _ = gradresult(s, s.method(md, "gradient", lam, old), "gradient")
            s.array(r, (3,), t, lambda p: want(p)[1], "dWdlambda", loose=True)
        else:
            md = s.call("hyperelastic.models.stretches.GeneralizedInvariantsModel", st.obj,
                        fun, **kw)
            r = s.method(md, "hessian", lam, old)
            from .. import npm
            if isinstance(r, (list, tuple)):
                rows = r
                s.require(len(rows) == 6, "hessian-rows", "the hessian has %d rows" % len(rows))
                for k in range(min(6, len(rows))):
                    x = alg.ZERO if rows[k] is None else rows[k]
                    s.array(npm.as_arr(x), (), t, lambda p: want(p)[2][k],
                            "d2Wdlambda2/%d" % k, loose=True)
            else:
                s.array(r, (6,), t, lambda p: want(p)[2], "d2Wdlambda2", loose=True)
        for _, a, site in [x for x in st.calls if x[0] == part]:
            for k in range(3):
                s.array(a.get("I%d" % (k + 1)), (), t, lambda p, k=k: want(p)[0][k],
                        "scaled-invariant%d/%s" % (k + 1, part), where=site, loose=True)
        s.require(any(x[0] == part for x in st.calls), "material-called/" + part,
                  "the material's %s is not evaluated" % part, where)
    for a, k, site in calls:
        s.require(k == kw, "strain-arguments", "the strain measure is called with %s instead "
                  "of its parameters %s" % (k, kw), site)
    s.untouched(gd, "generalized")


def generalized(chk):
    """C16: the generalised-invariants model."""
    for t in traxes(chk):
        for kind in ("array", "number"):
            chk.scenario("generalized-%s[%s]" % (kind, tname(t)),
                         lambda s, t=t, kind=kind: gen_case(s, t, (1, 1, 1), (1,) * 6, kind))
    chk.scenario("generalized-integer", lambda s: gen_case(
        s, (n,), (1, 1, 1), (1,) * 6, "integer"))
    for m in range(6):
        sec = tuple(1 if k == m else 0 for k in range(6))
        chk.scenario("generalized-only%d%d" % stubs.PAIRS[m],
                     lambda s, sec=sec: gen_case(s, (n,), (1, 1, 1), sec, "array",
                                                 parts=("hessian",)))
    chk.scenario("generalized-parameters", lambda s: gen_case(
        s, (n,), (1, 1, 1), (1,) * 6, "array", kwargs={"exponent": alg.var("kexp", pos=True),
                                                       "other": alg.var("other")}))

    chk.scenario("generalized-after-other-parameters", lambda s: gen_case(
        s, (n,), (1, 1, 1), (1,) * 6, "array", before="parameters",
        kwargs={"exponent": alg.var("kexp", pos=True)}))
    for nm in ("kwargs", "c1", "I10", "dWdI1"):
        # parameters of a measure may have any name
        chk.scenario("generalized-parameter-%s" % nm, lambda s, nm=nm: gen_case(
            s, (n,), (1, 1, 1), (1,) * 6, "array", kwargs={nm: alg.var("kexp", pos=True)}))
    chk.scenario("generalized-after-another", lambda s: gen_case(
        s, (n,), (1, 1, 1), (1,) * 6, "array", before=True))

    def framework(s, t):
        """The framework wraps the model: same answers as stretches framework around it."""
        st = stubs.invariants_material(t)
        fun, ref, calls = strain_stub()
        C = sym("C", t)
        old = stubs.token("old state")
        k = alg.var("kexp", pos=True)
        fw = s.call(GEN, st.obj, fun, nstatevars=5, parallel=False, exponent=k)
        md = s.call("hyperelastic.models.stretches.GeneralizedInvariantsModel", st.obj, fun,
                    exponent=k)
        ref_ = s.call(STR, md)
        x = s.it.getattr(fw, "x")
        s.require(isinstance(x, list) and isinstance(x[-1], AArray) and x[-1].dims == (5,),
                  "nstatevars", "the initial state variables do not have the requested size")
        a, _ = gradresult(s, s.method(fw, "gradient", C, old), "gradient")
        b, _ = gradresult(s, s.method(ref_, "gradient", C, old), "gradient")
        s.array(a, (6,), t, lambda p: at(b, 1, p), "framework-gradient")
        a = s.method(fw, "hessian", C, old)
        b = s.method(ref_, "hessian", C, old)
        if isinstance(b, AArray):
            s.array(a, (6, 6), t, lambda p: at(b, 2, p), "framework-hessian")
        for _, kk, site in calls:
            s.require(kk == {"exponent": k}, "strain-arguments",
                      "the parameters of the strain measure are not passed on: %s" % kk, site)

    chk.scenario("generalized-framework", lambda s: framework(s, (n,)))


assert HostObj
