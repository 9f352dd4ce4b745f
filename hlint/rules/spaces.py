"""Deformation spaces: stress and elasticity tensors in every configuration."""

from fractions import Fraction

import numpy as np

from .. import alg
from .. import npm
from .. import oracle as O
from .. import stubs
from ..absval import AArray, dlen
from ..alg import topoly
from ..inputs import at, bdims, c, m, n, q, sized, tensor, tname
from .frameworks import gradresult, points

H = Fraction(1, 2)
T3 = Fraction(1, 3)
SPACES = {"deformation": "hyperelastic.DeformationSpace",
          "distortional": "hyperelastic.DistortionalSpace",
          "dilatational": "hyperelastic.DilatationalSpace"}
CONF = [(None, 0), (None, None), (0, 0), (0, None)]


def cname(force, area):
    return "force-%s-area-%s" % ("deformed" if force is None else "undeformed",
                                 "deformed" if area is None else "undeformed")


class Kin:
    """Names for the kinematic quantities of one point."""

    def __init__(self, it, F, tag):
        self.F = F
        Cp = O.cauchy_green(F)
        self.C = [alg.abbreviation("C%d%s" % (k, tag), Cp[i, j], pos=i == j)
                  for k, (i, j) in enumerate(O.ORDER)]
        d = O.det3(F)
        self.J = alg.abbreviation("J%s" % tag, d, pos=True)
        T = O.full2(self.C)
        if all(alg.ATOMS[i].isint for x in F.ravel() for i in topoly(x).atoms()):
            for x in self.C + [self.J]:
                x.is_var().isint = True
        adj = O.adj3(T)
        iJ2 = self.J ** -2
        self.iC = [alg.abbreviation("invC%d%s" % (k, tag), adj[i, j] * iJ2, pos=i == j)
                   for k, (i, j) in enumerate(O.ORDER)]
        ab = it.abbr
        for k, (i, j) in enumerate(O.ORDER):
            ab[Cp[i, j]] = self.C[k]
            ab[adj[i, j] * iJ2] = self.iC[k]
        ab[O.det3(T)] = self.J ** 2
        ab[d] = self.J
        # rules for the derivative with respect to each component of C
        self.cid = [x.is_var().idx for x in self.C]
        iT = O.full2(self.iC)
        self.rules = []
        for k, (a, b) in enumerate(O.ORDER):
            w = 1 if k < 3 else 2
            r = {x: alg.ZERO for x in self.cid}
            r[self.cid[k]] = alg.ONE
            r[self.J.is_var().idx] = self.J * self.iC[k] * H * w
            for y, (e, f) in enumerate(O.ORDER):
                r[self.iC[y].is_var().idx] = (iT[e, a] * iT[f, b] + iT[e, b] * iT[f, a]) * (
                    -H * w)
            self.rules.append(r)

    def dC(self, p):
        return O.d_voigt(p, self.cid, self.rules)


def material(kin, which, g, h):
    """Second Piola-Kirchhoff stress and material tangent (reduced storage)."""
    if which == "deformation":
        X = list(kin.C)
    elif which == "distortional":
        f = kin.J ** (-2 * T3)
        X = [f * x for x in kin.C]
    else:
        f = kin.J ** (2 * T3)
        X = [f, f, f, alg.ZERO, alg.ZERO, alg.ZERO]
    D = [kin.dC(x) for x in X]
    w = [1, 1, 1, 2, 2, 2]
    S = O.obj((6,))
    for a in range(6):
        S[a] = sum((2 * w[k] * g[k] * D[k][a] for k in range(6)), alg.ZERO)

    def C4():
        DD = [[kin.dC(D[k][a]) for a in range(6)] for k in range(6)]
        M = O.obj((6, 6))
        R = O.obj((6, 6))       # sum_l w_l h_kl D_l[b]
        for k in range(6):
            for b in range(6):
                R[k, b] = sum((w[l] * h[k, l] * D[l][b] for l in range(6) if D[l][b].t),
                              alg.ZERO)
        for a in range(6):
            for b in range(6):
                x = sum((w[k] * g[k] * DD[k][a][b] for k in range(6)), alg.ZERO)
                x = x + sum((w[k] * D[k][a] * R[k, b] for k in range(6) if D[k][a].t), alg.ZERO)
                M[a, b] = 4 * x
        return M
    return X, S, C4


def final_stress(kin, S, force, area):
    F = kin.F
    R = O.full2(S)
    if force is None:
        R = O.dot2(F, R)
    if area is None:
        R = O.dot2(R, F.T)
        f = kin.J ** -1
        R = np.array([[x * f for x in r] for r in R], dtype=object)
    return R


def apply_axis(T, F, axis):
    T = np.moveaxis(T, axis, 0)
    out = O.obj(T.shape)
    for i in range(3):
        for idx in np.ndindex(*T.shape[1:]):
            out[(i,) + idx] = sum((F[i, k] * T[(k,) + idx] for k in range(3)), alg.ZERO)
    return np.moveaxis(out, 0, axis)


def final_elasticity(kin, S, M, force, area):
    F = kin.F
    A = O.full4(M)
    if force is None:
        A = apply_axis(apply_axis(A, F, 0), F, 2)
        K = np.array([[O.delta(i, j) for j in range(3)] for i in range(3)], dtype=object)
    else:
        K = O.full2(kin.iC)
    T = O.full2(S)
    for i, j, k, l in np.ndindex(3, 3, 3, 3):
        A[i, j, k, l] = A[i, j, k, l] + K[i, k] * T[j, l]
    if area is None:
        A = apply_axis(apply_axis(A, F, 1), F, 3)
        f = kin.J ** -1
        for i in np.ndindex(3, 3, 3, 3):
            A[i] = A[i] * f
    return A


def setup_kin(s, F, t):
    kin = {}
    for p in points(t):
        Fp = at(F, 2, p)
        tag = "@" + ",".join(map(str, p)) if p else ""
        kin[p] = Kin(s.it, Fp, tag)
    # generic points with a positive determinant
    for pt in s.pts():
        for p in points(t):
            for i in range(3):
                for j in range(3):
                    x = kin[p].F[i, j].is_var()
                    pt.val[x.idx] = (1 if i == j else 0) + pt.rnd(("F", x.name)) / 4
    s.given = {1: 1}
    return kin


def case(s, which, t, force=None, area=0, finalize=True, parallel=False, gt=None, ht=None,
         parts=("gradient", "hessian"), extra=()):
    F = tensor("F", t)
    kin = setup_kin(s, F, t)
    st = stubs.tensor_material(t, gtrax=gt, htrax=ht, same=True)
    kw = {}
    if force is not None or "force" in extra:
        kw["force"] = force
    if area != 0 or "area" in extra:
        kw["area"] = area
    if not finalize:
        kw["finalize"] = False
    if parallel:
        kw["parallel"] = True
    sp = s.call(SPACES[which], st.obj, **kw)
    where = s.where_of(sp)
    old = stubs.token("old state")
    gd = s.guard(F, st.g, st.h)
    want = {}

    def spec(p):
        if p not in want:
            X, S, C4 = material(kin[p], which, at(st.g, 1, p), at(st.h, 2, p))
            want[p] = [X, S, C4, None]
        return want[p]

    def tangent(p):
        r = spec(p)
        if r[3] is None:
            r[3] = r[2]()
        return r[3]

    def check_args(what):
        calls = [a for a in st.calls if a[0] == what]
        s.require(len(calls) >= 1, "material-called/" + what,
                  "the material's %s is not evaluated" % what, where)
        for _, a, site in calls:
            s.array(a.get("C"), (6,), t, lambda p: spec(p)[0], "deformation-tensor/" + what,
                    where=site)

    full = bdims(t, gt or t) if t else t
    for what in parts:
        st.calls.clear()
        r = s.method(sp, what, [F, old])
        s.require(isinstance(r, (list, tuple)) and len(r) == (2 if what == "gradient" else 1),
                  what + "-result", "%s does not return a list of the expected length" % what,
                  where)
        check_args(what)
        r = r[0]
        w = s.where_of(r) or where
        if what == "gradient":
            if finalize:
                s.array(r, (3, 3), full, lambda p: final_stress(kin[p], spec(p)[1], force, area),
                        "stress", where=w)
            else:
                s.array(r, (6,), full, lambda p: spec(p)[1], "stress", loose=True, where=w)
        else:
            if finalize:
                s.array(r, (3, 3, 3, 3), full, lambda p: final_elasticity(
                    kin[p], spec(p)[1], tangent(p), force, area), "elasticity", where=w)
            else:
                s.array(r, (6, 6), full, lambda p: tangent(p), "elasticity", loose=True, where=w)
    s.untouched(gd, which, ["the deformation gradient", "the material's stress response",
                            "the material's tangent response"])
    return sp


def tx(chk):
    return [(), (n,), (q, c), (1, 1), (q, c, m)] + sized(chk)


def space_rule(which, doc):
    def rule(chk):
        for t in tx(chk):
            chk.scenario("%s[%s]" % (which, tname(t)), lambda s, t=t: case(s, which, t))
            chk.scenario("%s-reduced[%s]" % (which, tname(t)),
                         lambda s, t=t: case(s, which, t, finalize=False))
        for more in (0, 1, 2):
            chk.scenario("%s-initial%s" % (which, "-%d" % (2 + more) if more else ""),
                         lambda s, more=more: initial(s, which, more))
    rule.__doc__ = doc
    return rule


def initial(s, which, more=0):
    """The initial quantities come from the material."""
    st = stubs.tensor_material((n,))
    if more:
        st.x[1:1] = [stubs.token("further quantity %d" % i) for i in range(more)]
    sp = s.call(SPACES[which], st.obj)
    x = s.it.getattr(sp, "x")
    s.require(isinstance(x, (list, tuple)) and len(x) == 2 and x[0] is st.x[0]
              and x[1] is st.x[-1], "initial-values", "the space does not take over the "
              "initial deformation and state variables of the material: %r" % (x,),
              s.where_of(sp))


deformation = space_rule("deformation", "C30: stress and tangent of the deformation space.")
distortional = space_rule("distortional", "C31: stress and tangent of the distortional space.")
dilatational = space_rule("dilatational", "C32: stress and tangent of the dilatational space.")


def configurations(chk):
    """C33: all force/area configurations.

    Also of responses that are constant over the trailing axes."""
    for which in SPACES:
        for force, area in CONF:
            for t in ([(), (n,), (q, c), (q, c, m)] if chk.tier == "quick" else tx(chk)):
                chk.scenario("%s-%s[%s]" % (which, cname(force, area), tname(t)),
                             lambda s, w=which, f=force, a=area, t=t: case(s, w, t, f, a))
            some = [((q, 1), (1, c)), ((1, c), (q, 1))]
            for gt, ht in [((1, 1), (1, 1)), ((q, c), (1, 1)), ((1, 1), (q, c))] + (
                    some if which == "deformation" or chk.tier == "thorough" else []):
                chk.scenario("%s-%s-constant-%s-%s" % (which, cname(force, area), tname(gt),
                                                       tname(ht)),
                             lambda s, w=which, f=force, a=area, gt=gt, ht=ht: case(
                                 s, w, (q, c), f, a, gt=gt, ht=ht))
        for t in [(n,), (q, c)]:
            chk.scenario("%s-reduced-constant[%s]" % (which, tname(t)),
                         lambda s, w=which, t=t: case(s, w, t, finalize=False,
                                                      gt=(1,) * len(t), ht=(1,) * len(t)))


assert AArray and npm and topoly and gradresult and dlen
