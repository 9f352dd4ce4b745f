"""Behaviour over call sequences: state variables, history, ownership, scaling, threads."""

import numpy as np

from .. import alg
from .. import npm
from .. import oracle as O
from .. import stubs
from .. import torchlib
from ..absval import AArray, HostFunc, HostObj, input_array
from ..inputs import THREE, at, c, mat, n, q, sym, tensor, tname, vec
from .frameworks import GEN, INV, STR, gradresult, points, strain_stub
from .models import ENERGIES, MODELS
from .spaces import CONF, SPACES, Kin, cname

GMODEL = MODELS + ".stretches.GeneralizedInvariantsModel"


class Pipe:
    """One evaluable object: how to build it, its deformation measure, where results are."""

    def __init__(self, name, build, measure, stub=True, space=False, t=(n,)):
        self.name, self.build, self.measure = name, build, measure
        self.stub, self.space, self.t = stub, space, t

    def inputs(self, s, tag):
        t = self.t
        if self.measure == "F":
            F = tensor("F" + tag, t)
            for p in points(t):
                Kin(s.it, at(F, 2, p), tag + ("@" + ",".join(map(str, p)) if p else ""))
            return [F]
        if self.measure == "C":
            C = sym("C" + tag, t)
            for p in points(t):
                alg.assume_positive(O.det3(O.full2(at(C, 1, p))))
            return [C]
        if self.measure == "lam":
            return [vec("lam" + tag, 3, t, pos=True)]
        return [input_array("I%d%s" % (k + 1, tag), t, pos=True) for k in range(3)]

    def call(self, s, o, what, x, state):
        if self.space:
            return s.method(o, what, [*x, state])
        return s.method(o, what, *x, state)

    def result(self, what, r):
        """(list of derivative arrays, new state or None)"""
        if what == "gradient":
            if not isinstance(r, (list, tuple)) or len(r) < 2:
                return None, None
            return list(r[:-1]), r[-1]
        if self.space:
            return list(r), None
        if isinstance(r, (list, tuple)):
            return list(r), None
        return [r], None


def pipes(frameworks=True, spaces=True, models=True, t=(n,), confs=CONF[:1], nested=True):
    out = []

    def add(name, build, measure, **kw):
        out.append(Pipe(name, build, measure, t=t, **kw))

    def ist(s, tag="", **kw):
        return stubs.invariants_material(t, prefix=tag, **kw)

    def sst(s, tag="", **kw):
        return stubs.stretches_material(t, prefix=tag, **kw)

    if frameworks:
        add("invariants", lambda s, st, **k: (s.call(INV, st.obj, **k)), "C", stub=ist)
        add("stretches", lambda s, st, **k: (s.call(STR, st.obj, **k)), "C", stub=sst)
        add("generalized", lambda s, st, **k: (s.call(GMODEL, st.obj, strain_stub()[0])),
            "lam", stub=ist)
    if frameworks and nested:
        add("generalized-framework", lambda s, st, **k: s.call(
            GEN, st.obj, strain_stub()[0], **k), "C", stub=ist)
    if spaces:
        for nm, cls in SPACES.items():
            for f, a in confs:
                add(nm + ("" if (f, a) == (None, 0) else "-" + cname(f, a)),
                    lambda s, st, cls=cls, f=f, a=a, **k: s.call(cls, st.obj, force=f, area=a,
                                                                 **k),
                    "F", stub=lambda s, tag="": stubs.tensor_material(t, prefix=tag),
                    space=True)
    if spaces and nested:
        for nm, cls in SPACES.items():
            add(nm + "-of-invariants", lambda s, st, cls=cls, **k: s.call(
                cls, s.call(INV, st.obj), **k), "F", stub=ist, space=True)
        add("deformation-of-stretches", lambda s, st, **k: s.call(
            SPACES["deformation"], s.call(STR, st.obj), **k), "F", stub=sst, space=True)
        add("deformation-of-generalized", lambda s, st, **k: s.call(
            SPACES["deformation"], s.call(GEN, st.obj, strain_stub()[0]), **k), "F",
            stub=ist, space=True)
    if models:
        # st names the set of parameters
        def tod(s, st, **k):
            return s.call(MODELS + ".invariants.ThirdOrderDeformation", **{
                x: alg.var(x + (st or ""), pos=True)
                for x in ("C10", "C01", "C11", "C20", "C30")})

        def ogd(s, st, **k):
            t = st or ""
            return s.call(MODELS + ".stretches.Ogden",
                          mu=[alg.var("mu0" + t), alg.var("mu1" + t)],
                          alpha=[alg.var("alpha0" + t, pos=True),
                                 alg.var("alpha1" + t, pos=True)])

        def tor(s, st, **k):
            fun = torchlib.opaque("W" + (st or ""), (0, 1, 2))
            return s.call(MODELS + ".invariants.TorchModel", fun)

        add("third-order", tod, "I", stub=None)
        add("ogden", ogd, "lam", stub=None)
        add("torch", tor, "I", stub=None)
    return out


TORCH = {"torch": torchlib.module}


def scen(chk, name, f, **kw):
    chk.scenario(name, f, libs_env=TORCH, **kw)


# -- state variables ----------------------------------------------------------------------------


KINDS = {"none": lambda k: None,
         "empty": lambda k: input_array("z%s" % k, (0,)),
         "array": lambda k: input_array("z%s" % k, (5, n)),
         "integers": lambda k: input_array("z%s" % k, (5, n), dtype="i"),
         "list": lambda k: [input_array("y%s" % k, (n,)), alg.var("z%s" % k)]}


def states(chk):
    """C34: state variables are passed through every layer."""
    def run(s, p, order, olds=None, new=False, between=()):
        st = p.stub(s) if p.stub else None
        if st and new is not False:
            st.new = new
        o = p.build(s, st)
        where = s.where_of(o)
        for k, what in enumerate(order):
            x = p.inputs(s, "" if k == 0 else str(k)) + list(between)
            old = olds(k) if olds else stubs.token("state %d" % k)
            if st:
                st.calls.clear()
            r = p.call(s, o, what, x, old)
            if st:
                calls = list(st.calls)
                s.require(any(cl[0] == what for cl in calls), "evaluated/%d" % k,
                          "the material's %s is not evaluated" % what, where)
                for w, a, site in calls:
                    got = a.get("statevars")
                    s.require(got is old, "%s-in-%s" % (w, what),
                              "evaluating the %s passes %s to the material's %s instead of "
                              "the state variables it was given" % (
                                  what, "its newly computed state variables"
                                  if got is st.new else repr(got), w), site)
            if what == "gradient":
                _, new = p.result(what, r)
                s.require(new is (st.new if st else old), "returned/%d" % k,
                          "the gradient does not return the %s state variables" % (
                              "material's new" if st else "given"), where)

    for p in pipes(confs=CONF):
        for order in (["gradient", "hessian"], ["hessian", "gradient"], ["hessian"],
                      ["hessian", "hessian"]):
            if "-" in p.name and order[0] == "hessian" and len(order) > 1:
                continue
            if p.name == "deformation-of-generalized" and chk.tier != "thorough":
                continue        # a minute; the parts are covered on their own
            scen(chk, "state-%s-%s" % (p.name, "-".join(order)),
                 lambda s, p=p, o=order: run(s, p, o))
        if "-" in p.name and chk.tier != "thorough":
            continue
        # no, empty and array-valued state variables
        for nm, olds in KINDS.items():
            for news in KINDS if p.stub else ("same",):
                scen(chk, "state-%s-%s-%s" % (p.name, nm, news),
                     lambda s, p=p, a=olds, b=news: run(
                         s, p, ["gradient", "hessian"], a,
                         False if b == "same" else KINDS[b]("new")))

    # the state variables are the last item, also of a mixed-field container
    for p in pipes(frameworks=False, models=False, nested=False):
        for nm, items in (("field", 1), ("fields", 2)):
            scen(chk, "state-%s-mixed-%s" % (p.name, nm), lambda s, p=p, j=items: run(
                s, p, ["gradient", "hessian"], between=[
                    input_array("pressure%d" % k, (n,)) for k in range(j)]))

    def initial(s, path, size):
        st = stubs.invariants_material((n,))
        args = [st.obj] + ([strain_stub()[0]] if path == GEN else [])
        kw = {} if size is None else {"nstatevars": size}
        fw = s.call(path, *args, **kw)
        where = s.where_of(fw)
        for o, nm in [(fw, "framework")] + [(s.call(SPACES[k], fw), k) for k in SPACES]:
            x = s.it.getattr(o, "x")
            ok = isinstance(x, (list, tuple)) and len(x) == 2 and all(
                isinstance(y, AArray) for y in x)
            if not s.require(ok, "initial/" + nm, "the initial quantities are %r" % (x,),
                             where):
                continue
            s.array(x[0], (3, 3), (), lambda p: [[O.delta(i, j) for j in range(3)]
                                                 for i in range(3)], "initial-F/" + nm)
            s.array(x[1], (), (size or 0,), lambda p: 0, "initial-state/" + nm)

    for path in (INV, STR, GEN):
        for size in (None, 0, 1, 7):
            scen(chk, "initial-%s-%s" % (path.split(".")[-1], size),
                 lambda s, path=path, size=size: initial(s, path, size))


# -- history ------------------------------------------------------------------------------------------


def same_results(s, a, b, label, where, what, names="an unused object"):
    if a is None or b is None or len(a) != len(b):
        s.violation(label, "%s returns different structures" % what, where)
        return
    for k, (x, y) in enumerate(zip(a, b)):
        if x is None or y is None:
            z = y if x is None else x
            if z is None:
                continue
            x = npm.as_arr(0 if x is None else x)
            y = npm.as_arr(0 if y is None else y)
        x, y = npm.as_arr(x), npm.as_arr(y)
        if not s.require(tuple(x.dims) == tuple(y.dims), label + "/shape",
                         "%s has shape %s but %s gives %s" % (what, x.dims, names, y.dims),
                         where):
            continue
        for i in np.ndindex(*x.data.shape):
            if not s.same(x.data[i], y.data[i], label, where, "%s component %s (against %s)" % (
                    what, list(i), names)):
                break


def same_arguments(s, seen, ref, what, names):
    """The material is evaluated at the same point."""
    for w, got, site in seen:
        if w not in ref or set(got) != set(ref[w][1]):
            continue
        for nm in got:
            same_results(s, *[list(v) if isinstance(v, (list, tuple)) else [v]
                              for v in (got[nm], ref[w][1][nm])],
                         "argument/%s/%s" % (w, nm), site,
                         "%s of the material %s" % (nm, what), names)


def history(chk):
    """C35: an evaluation does not depend on earlier ones and does not change their results."""
    seqs = [["gradient", "hessian", "gradient", "hessian"],
            ["hessian", "gradient", "hessian"]]

    def run(s, p, seq, partial=False):
        k = 0
        st = p.stub(s, tag="") if p.stub else None
        o = p.build(s, st)
        where = s.where_of(o)
        kept = []
        old = stubs.token("state")
        xs = [p.inputs(s, "a"), p.inputs(s, "b")]
        for k, what in enumerate(seq):
            x = xs[0] if k == len(seq) - 1 else xs[(k + 1) % 2] if partial else xs[k % 2]
            if st is not None:
                # another response at another deformation
                if k > 0:
                    respond(st, "r%d" % k)
                st.seen.clear()
            r = p.call(s, o, what, x, old)
            res, _ = p.result(what, r)
            if res is None:
                s.violation("result", "%s returns %r" % (what, r), where)
                return
            for y in res:
                if isinstance(y, AArray):
                    kept.append((y, y.data.copy(), what, k))
        # the last evaluation with an unused object
        st2 = p.stub(s, tag="") if p.stub else None
        if st2 is not None:
            respond(st2, "r%d" % k)
        o2 = p.build(s, st2)
        r2, _ = p.result(seq[-1], p.call(s, o2, seq[-1], xs[0], old))
        same_results(s, res, r2, "fresh", where, seq[-1] + " after other evaluations")
        if st is not None:
            same_arguments(s, st.seen, {c[0]: c for c in st2.seen}, "after other evaluations",
                           "an unused object")
        for y, d, what, j in kept:
            ok = d.shape == y.data.shape and all(
                a is b or a == b for a, b in zip(d.ravel(), y.data.ravel()))
            s.require(ok, "kept/%d" % j, "the result of evaluation %d (%s) is modified by a "
                      "later evaluation" % (j + 1, what), s._writer(y) or where)

    for p in pipes(nested=False, confs=CONF if chk.tier == "thorough" else
                   [CONF[0], CONF[3]]):
        for seq in seqs:
            if p.name in ("stretches",) and len(seq) > 3:
                seq = ["gradient", "hessian"]
            scen(chk, "history-%s-%s" % (p.name, "-".join(x[0] for x in seq)),
                 lambda s, p=p, seq=seq: run(s, p, seq), maxpaths=4000)

    math_histories(chk)

    # the same array with other values (an increment which is added in place)
    def reused(s, p, first):
        st = p.stub(s, tag="") if p.stub else None
        o = p.build(s, st)
        where = s.where_of(o)
        old = stubs.token("state")
        x, y = p.inputs(s, "a"), p.inputs(s, "b")
        for what in first:
            p.call(s, o, what, x, old)
        for a, b in zip(x, y):
            a.data[...] = b.data
        for what in ("hessian", "gradient"):
            if st is not None:
                st.seen.clear()
            res, _ = p.result(what, p.call(s, o, what, x, old))
            if res is None:
                s.violation("result", "%s returns no arrays" % what, where)
                return
            st2 = p.stub(s, tag="") if p.stub else None
            o2 = p.build(s, st2)
            r2, _ = p.result(what, p.call(s, o2, what, p.inputs(s, "b"), old))
            same_results(s, res, r2, "reused/" + what, where, what + " after the values of the "
                         "given array have been changed in place")
            if st is not None:
                same_arguments(s, st.seen, {c[0]: c for c in st2.seen}, "after the values of "
                               "the given array have been changed", "an unused object")

    for p in pipes(nested=False):
        for first in (["gradient", "hessian"], ["hessian"])[p.name == "stretches":]:
            scen(chk, "history-reused-array-%s-%s" % (p.name, first[0]),
                 lambda s, p=p, f=first: reused(s, p, f), maxpaths=4000)

    # a material which hands out the very arrays it is given (the last deformation as state
    # variables, a derivative which is the argument itself)
    def echo(s, p, order, both):
        got = []
        for own in (False, True):
            st = p.stub(s, tag="")
            inner = st.obj.attrs["gradient"]

            def grad(it, a, k, own=own, inner=inner):
                r = it.call(inner, a, k)
                args = [stubs.copied(y) if own else y for y in list(a) + list(k.values())]
                first = args[:len(args) - 1]
                state = first[0] if len(first) == 1 else first
                if not both:
                    return type(r)([*r[:-1], state])
                return type(r)([*first, state])
            st.obj.attrs["gradient"] = HostFunc("material.gradient", grad)
            o = p.build(s, st)
            where = s.where_of(o)
            out = []
            for k, what in enumerate(order):
                x = p.inputs(s, "ab"[k // 2])
                res, new = p.result(what, p.call(s, o, what, x, stubs.token("state")))
                if res is None:
                    s.violation("result", "%s returns no arrays" % what, where)
                    return
                out.append((what, list(res) + (list(new) if isinstance(new, (list, tuple)) else
                                               [new] if what == "gradient" else [])))
            got.append(out)
        for (what, a), (_, b) in zip(*got):
            same_results(s, a, b, "given-arrays/" + what, where, what + " of a material which "
                         "returns the arrays it is given", "one which returns copies")

    for p in pipes(nested=False, models=False, frameworks=False, spaces=True) + \
            pipes(nested=False, models=False, spaces=False):
        if p.name == "stretches":
            continue
        for both in (False, True):
            for order in (["gradient", "gradient", "gradient"],
                          ["gradient", "hessian", "gradient", "hessian"]):
                scen(chk, "history-given-arrays-%s-%s%s" % (
                    p.name, "-".join(x[0] for x in order), "-derivative" if both else ""),
                    lambda s, p=p, o=order, b=both: echo(s, p, o, b), maxpaths=4000)

    # a model whose derivatives appear and disappear between evaluations
    def varying(s, cls, f1, f2):
        t = (n,)
        from .frameworks import consistent
        lead = "lam" if cls == GMODEL else "C"

        def mk(f, tag):
            return stubs.invariants_material(t, f, consistent(f), prefix=tag)
        a, b = mk(f1, ""), mk(f2, "r1")
        cur = [a]
        obj = HostObj("material", {
            w: HostFunc("material." + w, lambda i, x, k, w=w: i.call(
                cur[0].obj.attrs[w], x, k)) for w in ("gradient", "hessian")})
        args = [strain_stub()[0]] if cls == GMODEL else []
        o = s.call(cls, obj, *args)
        where = s.where_of(o)
        P = Pipe("x", None, lead, t=t)
        x = P.inputs(s, "a")
        old = stubs.token("state")
        s.method(o, "gradient", *P.inputs(s, "b"), old)
        s.method(o, "hessian", *P.inputs(s, "b"), old)
        cur[0] = b
        for what in ("gradient", "hessian"):
            r, _ = P.result(what, s.method(o, what, *x, old))
            o2 = s.call(cls, b.obj, *args)
            r2, _ = P.result(what, s.method(o2, what, *x, old))
            same_results(s, r, r2, "varying/" + what, where, what)

    for cls in (INV, GMODEL):
        for f1, f2 in [((1, 1, 1), (1, 0, 0)), ((1, 0, 0), (1, 1, 1)), ((1, 1, 0), (0, 1, 1)),
                       ((0, 0, 1), (1, 1, 0))]:
            scen(chk, "history-varying-%s-%s-%s" % (
                cls.split(".")[-1], "".join(map(str, f1)), "".join(map(str, f2))),
                lambda s, cls=cls, f1=f1, f2=f2: varying(s, cls, f1, f2))

    # two objects do not share state
    def two(s, p):
        st1, st2 = p.stub(s), p.stub(s)
        if st2 is not None:
            respond(st2, "other")
        o1, o2 = p.build(s, st1), p.build(s, st2)
        where = s.where_of(o1)
        old = stubs.token("state")
        x, y = p.inputs(s, "a"), p.inputs(s, "b")
        for what in ("gradient", "hessian"):
            r1, _ = p.result(what, p.call(s, o1, what, x, old))
            p.call(s, o2, what, y, old)
            r3, _ = p.result(what, p.call(s, o1, what, x, old))
            same_results(s, r3, r1, "two-objects/" + what, where, what + " repeated after an "
                         "evaluation of another object", "the first evaluation")

    for p in pipes(nested=False):
        if p.stub and p.name != "stretches":
            scen(chk, "history-two-objects-%s" % p.name, lambda s, p=p: two(s, p))

    # what a caller does with a result does not reach later evaluations
    def own(st):
        return [y for x in ((st.g, st.h) if st is not None else ()) for y in (
            x if isinstance(x, list) else [x]) if isinstance(y, AArray)]

    def changed(s, p, what):
        st = p.stub(s, tag="") if p.stub else None
        o = p.build(s, st)
        where = s.where_of(o)
        old = stubs.token("state")
        res, _ = p.result(what, p.call(s, o, what, p.inputs(s, "a"), old))
        if res is None:
            s.violation("result", "%s returns no arrays" % what, where)
            return
        scribble(res, own(st))
        for w in ("hessian", "gradient"):
            x = p.inputs(s, "b")
            r, _ = p.result(w, p.call(s, o, w, x, old))
            st2 = p.stub(s, tag="") if p.stub else None
            r2, _ = p.result(w, p.call(s, p.build(s, st2), w, x, old))
            same_results(s, r, r2, "changed/" + w, where, w + " after the caller has written "
                         "to the result of an earlier evaluation")

    for p in pipes(nested=False):
        for what in ("gradient", "hessian"):
            if p.name == "stretches" and what == "hessian":
                continue
            scen(chk, "history-written-result-%s-%s" % (p.name, what),
                 lambda s, p=p, w=what: changed(s, p, w), maxpaths=4000)

    def function(s, fn, mk, kw):
        def args():
            first = mk[0]()
            return [first] + [(first if f is None else f()) for f in mk[1:]]
        M = "hyperelastic.math."
        r = s.call(M + fn, *args(), **kw)
        where = s.where_of(s.attr(M + fn))
        want = [y.data.copy() for y in listed(r) if isinstance(y, AArray)]
        scribble(listed(r), [])
        again = s.call(M + fn, *args(), **kw)
        got = [y.data for y in listed(again) if isinstance(y, AArray)]
        s.require(len(got) == len(want) and all(
            a.shape == b.shape and all(x is y or x == y for x, y in zip(a.ravel(), b.ravel()))
            for a, b in zip(got, want)), "changed/" + fn, "%s depends on what a caller has "
            "written to the result of an earlier call" % fn, where)

    for k, (fn, mk, kw) in enumerate(math_calls()):
        scen(chk, "history-written-result-math-%s-%d" % (fn, k),
             lambda s, fn=fn, mk=mk, kw=kw: function(s, fn, mk, kw))


def listed(r):
    return list(r) if isinstance(r, (tuple, list)) else [r]


def scribble(results, but):
    """The caller writes to the arrays which it got."""
    for k, y in enumerate(results):
        if isinstance(y, AArray) and not y.readonly and not any(
                np.shares_memory(y.data, z.data) for z in but):
            for i in np.ndindex(*y.data.shape):
                y.data[i] = alg.var("written by the caller %d%s" % (k, list(i)))


def respond(st, tag):
    """Give a stub another response."""
    def ren(x):
        if isinstance(x, AArray):
            d = np.empty(x.data.shape, dtype=object)
            for i in np.ndindex(*x.data.shape):
                d[i] = alg.topoly(x.data[i])
            names = {}
            for i in np.ndindex(*d.shape):
                v = d[i].is_var()
                if v is not None:
                    key = (tag, v.name)
                    names[i] = alg.var(tag + v.name, key=key)
            for i, v in names.items():
                d[i] = v
            return AArray(d, x.dims, "f")
        if x is None:
            return None
        v = alg.topoly(x).is_var()
        return alg.var(tag + v.name)
    if not hasattr(st, "base"):
        st.base = (st.g, st.h)
    g, h = st.base
    st.g = [ren(x) for x in g] if isinstance(g, list) else ren(g)
    st.h = [ren(x) for x in h] if isinstance(h, list) else ren(h)


# -- ownership -----------------------------------------------------------------------------------------


def ownership(chk):
    """C36: arrays handed in by the caller or by a user's material are never written to."""
    def run(s, p, frozen=False):
        st = p.stub(s) if p.stub else None
        o = p.build(s, st)
        where = s.where_of(o)
        x = p.inputs(s, "")
        state = input_array("state", (5,))
        rs = []
        if st is not None:
            for y in ([st.g] if isinstance(st.g, AArray) else st.g) + (
                    [st.h] if isinstance(st.h, AArray) else st.h):
                if isinstance(y, AArray):
                    rs.append(y)
        g = s.guard(*x, state, *rs)
        for y in (*x, state, *rs) if frozen else ():
            y.readonly = True
        names = ["the deformation"] * len(x) + ["the state variables"] + \
            ["the material's response"] * len(rs)
        for k, what in enumerate(("gradient", "hessian", "gradient")):
            r = p.call(s, o, what, x, state)
            res, _ = p.result(what, r)
            s.untouched(g, "%s/%d" % (what, k), names)
            # what the caller does with a result must not reach the material's arrays
            for y in res or []:
                if isinstance(y, AArray):
                    for z in x + [state]:
                        s.require(not np.shares_memory(y.data, z.data),
                                  "alias/%s" % what, "the result of the %s shares memory with "
                                  "the caller's array" % what, where)
        assert where or True

    for p in pipes(confs=CONF):
        if p.name in ("deformation-of-stretches", "deformation-of-generalized"):
            continue
        scen(chk, "ownership-%s" % p.name, lambda s, p=p: run(s, p), maxpaths=4000)
        scen(chk, "ownership-read-only-%s" % p.name, lambda s, p=p: run(s, p, True),
             maxpaths=4000)
    for p in pipes(frameworks=False, models=False, nested=False, confs=CONF):
        scen(chk, "ownership-reduced-%s" % p.name, lambda s, p=p: run(s, Pipe(
            p.name, lambda s, st, **k: p.build(s, st, finalize=False), p.measure, p.stub,
            True, p.t)))
    for p in pipes(frameworks=False, models=False, nested=False, confs=CONF, t=(1, 1)):
        scen(chk, "ownership-unit-%s" % p.name, lambda s, p=p: run(s, p))

    # material answers with stacked arrays
    def stacked(s):
        t = (n,)
        st = stubs.stretches_material(t, as_list=False)
        keep = []
        orig_h = st.obj.attrs["hessian"].fn
        orig_g = st.obj.attrs["gradient"].fn

        def hess(i, a, k):
            if not keep or len(keep) < 2:
                keep.append(orig_h(i, a, k))
            return keep[-1]

        def grad(i, a, k):
            if not keep:
                keep.append(orig_g(i, a, k)[0])
            return [keep[0], st.new]
        st.obj.attrs["hessian"] = HostFunc("h", hess)
        st.obj.attrs["gradient"] = HostFunc("g", grad)
        fw = s.call(STR, st.obj)
        C = sym("C", t)
        old = stubs.token("state")
        s.method(fw, "gradient", C, old)
        g1 = s.guard(*keep)
        s.method(fw, "hessian", C, old)
        s.untouched(g1, "stacked", ["the material's response"])
        g2 = s.guard(*keep)
        s.method(fw, "hessian", C, old)
        s.untouched(g2, "stacked-again", ["the material's response"] * 2)
    scen(chk, "ownership-stretches-arrays", stacked, maxpaths=4000)

    math_ownership(chk)


def math_calls():
    t = (n,)
    S, T = lambda p="": sym(p + "A", t), lambda p="": sym(p + "B", t)
    M4, N4 = lambda p="": mat(p + "M", t), lambda p="": mat(p + "N", t)
    F = lambda p="": tensor(p + "A", t)     # noqa: E731
    cases = [("astensor", [S], {}), ("astensor", [M4], {"mode": 4}),
             ("asvoigt", [F], {}), ("asvoigt", [F], {"mode": 2}),
             ("det", [S], {}), ("inv", [S], {}), ("trace", [S], {}), ("dev", [S], {}),
             ("eye", [S], {}), ("eigh", [S], {}), ("transpose", [M4], {}),
             ("dot", [S, T], {}), ("ddot", [S, T], {}), ("ddot", [S, M4], {"mode": (2, 4)}),
             ("ddot", [M4, T], {"mode": (4, 2)}), ("ddot", [M4, N4], {"mode": (4, 4)}),
             ("dya", [S, T], {}), ("cdya", [S, T], {}), ("cdya_ik", [S, T], {}),
             ("cdya_il", [S, T], {}), ("dya", [S, None], {}), ("cdya", [S, None], {}),
             ("cdya_ik", [S, None], {}), ("cdya_il", [S, None], {}), ("dot", [S, None], {}),
             ("ddot", [S, None], {})]
    return cases


def math_args(mk, tag=""):
    first = mk[0](tag)
    return [first] + [first if f is None else f(tag) for f in mk[1:]]


def arrays_of(r):
    return [y for y in (r if isinstance(r, (tuple, list)) else [r]) if isinstance(y, AArray)]


def math_kept(s, fn, keep, r2):
    for y, d in keep:
        s.require(all(a is b or a == b for a, b in zip(d.ravel(), y.data.ravel())),
                  "kept/" + fn, "a second call modifies the result of the first", s._writer(y))


def math_ownership(chk):
    M = "hyperelastic.math."
    for k, (fn, mk, kw) in enumerate(math_calls()):
        def run(s, fn=fn, mk=mk, kw=kw):
            args = math_args(mk)
            g = s.guard(*args)
            r1 = s.call(M + fn, *args, **kw)
            s.untouched(g, fn, ["argument"] * len(args))
            keep = [(y, y.data.copy()) for y in arrays_of(r1)]
            r2 = s.call(M + fn, *math_args(mk, "o"), **kw)
            math_kept(s, fn, keep, r2)
        scen(chk, "ownership-math-%s-%d" % (fn, k), run)


def math_histories(chk):
    """Calls of the tensor functions do not depend on earlier ones."""
    M = "hyperelastic.math."
    for k, (fn, mk, kw) in enumerate(math_calls()):
        def run(s, fn=fn, mk=mk, kw=kw, reuse=False):
            a, b = math_args(mk), math_args(mk, "o")
            m = {}
            for x, y in zip(a, b):
                for u, v in zip(x.data.ravel(), y.data.ravel()):
                    m[alg.topoly(u).is_var().idx] = alg.topoly(v)
            r1 = s.call(M + fn, *a, **kw)
            where = s.where_of(r1)
            keep = [(y, y.data.copy()) for y in arrays_of(r1)]
            if reuse:
                # the values of the given arrays are replaced
                for x, y in zip(a, b):
                    x.data[...] = y.data
                b = a
                keep = [(y, d) for y, d in keep if y.data is not None]
            r2 = s.call(M + fn, *b, **kw)
            if not reuse:
                math_kept(s, fn, keep, r2)
            if fn == "eigh":
                return
            o1, o2 = keep, arrays_of(r2)
            if len(o1) != len(o2):
                s.violation("again/" + fn, "a second call returns %d instead of %d arrays" % (
                    len(o2), len(o1)), where)
                return
            for (_, x), y in zip(o1, o2):
                if x.shape != y.data.shape:
                    s.violation("again/" + fn, "a second call returns shape %s instead of %s" % (
                        y.dims, x.shape), where)
                    return
                for i in np.ndindex(*x.shape):
                    if not s.same(alg.topoly(y.data[i]), alg.subst(alg.topoly(x[i]), m),
                                  "again/" + fn, s.where_of(y) or where,
                                  "component %s of a second call of %s" % (list(i), fn)):
                        return
        scen(chk, "history-math-%s-%d" % (fn, k), run)
        scen(chk, "history-reused-math-%s-%d" % (fn, k),
             lambda s, run=run: run(s, reuse=True))


# -- scaling ------------------------------------------------------------------------------------------------


def scaling(chk):
    """C37: responses scale and add up.

    Stress and tangent are proportional to the material's response at every magnitude."""
    def combine(fs, *sts):
        """Response sum_k f_k * response_k."""
        def comb(*xs):
            if any(x is None for x in xs):
                return None
            if isinstance(xs[0], AArray):
                return npm.as_arr(npm.elementwise(
                    lambda *v: sum((f * alg.topoly(y) for f, y in zip(fs, v)), alg.ZERO),
                    list(xs), "f"))
            return sum((f * alg.topoly(y) for f, y in zip(fs, xs)), alg.ZERO)
        a = sts[0]
        g = [comb(*y) for y in zip(*[x.g for x in sts])] if isinstance(a.g, list) else comb(
            *[x.g for x in sts])
        h = [comb(*y) for y in zip(*[x.h for x in sts])] if isinstance(a.h, list) else comb(
            *[x.h for x in sts])
        return g, h

    def run(s, p, kind):
        f = alg.var("scale", pos=True)
        st1, st2, st3 = p.stub(s), p.stub(s, tag="o"), p.stub(s)
        if kind == "scale":
            st3.g, st3.h = combine([f], st1)
        else:
            st3.g, st3.h = combine([alg.ONE, alg.ONE], st1, st2)
        x = p.inputs(s, "")
        old = stubs.token("state")
        for what in ("gradient", "hessian"):
            res = []
            for st in (st1, st2, st3):
                if st is st2 and kind == "scale":
                    continue
                o = p.build(s, st)
                where = s.where_of(o)
                r, _ = p.result(what, p.call(s, o, what, x, old))
                res.append(r)
            if any(r is None for r in res):
                s.violation(kind, "%s has no result" % what, where)
                return
            for k in range(len(res[0])):
                ys = [npm.as_arr(0 if r[k] is None else r[k]) for r in res]
                if len({y.data.shape for y in ys}) != 1:
                    s.violation(kind + "/" + what, "shape depends on the response", where)
                    continue
                for i in np.ndindex(*ys[0].data.shape):
                    v = [alg.topoly(y.data[i]) for y in ys]
                    want = f * v[0] if kind == "scale" else v[0] + v[1]
                    if not s.same(v[-1], want, kind + "/" + what, where,
                                  "%s component %s for a %s energy" % (
                                      what, list(i), "scaled" if kind == "scale" else
                                      "summed")):
                        break

    for p in pipes(models=False, nested=False, confs=CONF):
        for kind in ("scale", "sum"):
            if p.name == "stretches":
                continue
            if kind == "sum" and p.name == "distortional-force-deformed-area-deformed" \
                    and chk.tier != "thorough":
                continue        # two minutes
            scen(chk, "%s-%s" % (kind, p.name), lambda s, p=p, kind=kind: run(s, p, kind))
    def models(s, name, kind, t):
        """The models of the package: parameters which are multiplied or added."""
        f = alg.var("scale", pos=True)
        # the terms which are absent are those of C18
        a = [alg.var("a_" + y, pos=True) for y in TERMS[name]]
        b = [alg.var("b_" + y, pos=True) for y in TERMS[name]]
        if name == "ogden":
            e = [alg.var("e_" + y, pos=True) for y in TERMS[name]]
            g = [alg.var("g_" + y, pos=True) for y in TERMS[name]]
            sets = [(a, e), (b, g), ([f * y for y in a], e) if kind == "scale" else
                    (a + b, e + g)]
            objs = [s.call(MODELS + ".stretches.Ogden", mu=list(m), alpha=list(x))
                    for m, x in sets]
            x = [input_array("lam", (3,) + tuple(t), pos=True)]
        else:
            sets = [a, b, [f * y for y in a] if kind == "scale" else
                    [y + z for y, z in zip(a, b)]]
            objs = [s.call(MODELS + ".invariants.ThirdOrderDeformation",
                           **dict(zip(TERMS[name], m))) for m in sets]
            x = [input_array("I%d" % (j + 1), t, pos=True) for j in range(3)]
        old = stubs.token("state")
        for what in ("gradient", "hessian"):
            res = []
            for o in objs:
                where = s.where_of(o)
                r = s.method(o, what, *x, old)
                if what == "gradient":
                    r = r[:-1]
                parts = []
                for y in r:
                    if y is None:
                        parts += [None]
                        continue
                    y = npm.as_arr(y)
                    parts += [y] if y.data.size == 1 and len(y.dims) <= len(t) else [
                        npm.getitem(y, j) for j in range(y.data.shape[0])]
                res.append(parts)
            if len({len(r) for r in res}) != 1:
                s.violation(kind + "/" + what, "the number of derivatives depends on the "
                            "parameters", where)
                continue
            for m, ys in enumerate(zip(*res)):
                v = [alg.ZERO if y is None else alg.topoly(npm.as_arr(y).data.ravel()[0])
                     for y in ys]
                s.same(v[2], f * v[0] if kind == "scale" else v[0] + v[1],
                       kind + "/" + what, where, "%s item %d for %s parameters" % (
                           what, m, "scaled" if kind == "scale" else "summed"))

    TERMS = {"third-order": ("C10", "C01", "C11", "C20", "C30"), "ogden": ("one", "two")}
    for name in TERMS:
        for kind in ("scale", "sum"):
            for t in ((n,), ()):
                scen(chk, "%s-%s[%s]" % (kind, name, "n" if t else ""),
                     lambda s, name=name, kind=kind, t=t: models(s, name, kind, t))

    for kind in ("scale", "sum"):
        p = [x for x in pipes(models=False, spaces=False, nested=False) if
             x.name == "stretches"][0]
        scen(chk, "%s-stretches" % kind, lambda s, kind=kind: run(s, p, kind), maxpaths=4000)


# -- threads ---------------------------------------------------------------------------------------------------


def parallel(chk):
    """C38: the threaded variant returns what the serial one returns."""
    def run(s, p):
        st = p.stub(s)
        x = p.inputs(s, "")
        old = stubs.token("state")
        o1 = p.build(s, st, parallel=False)
        o2 = p.build(s, st, parallel=True)
        where = s.where_of(o2)
        for what in ("gradient", "hessian"):
            st.seen.clear()
            r1, s1 = p.result(what, p.call(s, o1, what, x, old))
            seen = {c[0]: c for c in st.seen}
            st.seen.clear()
            k = len(s.it.events)
            r2, s2 = p.result(what, p.call(s, o2, what, x, old))
            same_arguments(s, st.seen, seen, "with parallel=True", "the serial one")
            s.require(s1 is s2, "state/" + what, "the new state variables of the threaded "
                      "variant are not those of the serial one", where)
            same_results(s, r2, r1, what, where, what + " with parallel=True", "the serial one")
            for ev in s.it.events[k:]:
                if ev[0] == "einsumt-mixed":
                    s.violation("trailing-axes/" + what, "einsumt(%r) is given operands with "
                                "different numbers of trailing axes, which it does not "
                                "broadcast" % ev[1], ev[3])

    for t in [(n,), (q, c), (1, 1), (), THREE]:
        for p in pipes(models=False, confs=CONF, nested=False, t=t):
            if p.name in ("stretches", "generalized"):
                continue
            scen(chk, "parallel-%s[%s]" % (p.name, tname(t)), lambda s, p=p: run(s, p))
    t = (q, c)
    for p in pipes(models=False, confs=CONF, nested=False, frameworks=False, t=t):
        def const(s, p=p, t=t):
            run(s, Pipe(p.name, p.build, p.measure, lambda s: stubs.tensor_material(
                t, gtrax=(1, 1)), True, p.t))
        scen(chk, "parallel-constant-%s" % p.name, const)

        def unsymmetric(s, p=p, t=t):
            # as the consistent tangent of a material with state variables may be
            run(s, Pipe(p.name, p.build, p.measure, lambda s: stubs.tensor_material(
                t, major=False), True, p.t))
        if p.name in SPACES or chk.tier == "thorough":
            scen(chk, "parallel-unsymmetric-%s" % p.name, unsymmetric)
        scen(chk, "parallel-reduced-%s" % p.name, lambda s, p=p: run(s, Pipe(
            p.name, lambda s, st, **k: p.build(s, st, finalize=False, **k), p.measure, p.stub,
            True, p.t)))
    p = [x for x in pipes(models=False, spaces=False, nested=False) if
         x.name == "stretches"][0]
    scen(chk, "parallel-stretches", lambda s: run(s, p), maxpaths=2000)

    M = "hyperelastic.math."

    def math(s, fn, args, kw, t):
        a = [f(t) for f in args]
        r1 = s.call(M + fn, *a, parallel=False, **kw)
        k = len(s.it.events)
        r2 = s.call(M + fn, *a, parallel=True, **kw)
        where = s.where_of(s.attr(M + fn))
        same_results(s, [r2], [r1], fn, where, fn + " with parallel=True", "the serial one")
        for ev in s.it.events[k:]:
            if ev[0] == "einsumt-mixed":
                s.violation("trailing-axes/" + fn, "einsumt(%r) is given operands with "
                            "different numbers of trailing axes" % ev[1], ev[3])

    A, B = lambda t: sym("A", t), lambda t: sym("B", t)
    for fn, args, kw in [("cdya_ik", [A, B], {}), ("cdya_il", [A, B], {}), ("cdya", [A, B], {}),
                         ("dya", [A, B], {})]:
        for t in [(), (n,), (q, c), THREE]:
            def go(s, fn=fn, args=args, kw=kw, t=t):
                f = s.attr(M + fn)
                names = [x.arg for x in f.node.args.args + f.node.args.kwonlyargs]
                if "parallel" in names:
                    math(s, fn, args, kw, t)
            scen(chk, "parallel-math-%s[%s]" % (fn, tname(t)), go)


assert gradresult and ENERGIES
