"""Failures of user-supplied code reach the caller and leave the objects usable."""

import ast

from .. import alg
from .. import npm
from .. import stubs
from .. import torchlib
from ..absval import AbsRaise, HostFunc, HostObj
from ..inputs import n
from ..interp import EXC, exc_is
from .behaviour import TORCH, pipes, same_results
from .frameworks import GEN, STR, strain_stub
from .lab import CASES, LAB, Lab, Mat, stretch
from .models import MODELS

ERRORS = ("ValueError", "TypeError", "AttributeError", "KeyError", "IndexError",
          "FloatingPointError", "ZeroDivisionError", "RuntimeError", "NotImplementedError",
          "ModuleNotFoundError", "AssertionError", "LinAlgError",
          "KeyboardInterrupt", "UserError")
TEXT = "reported by the user's code"


class Fault:
    """A stand-in which fails while it is armed."""

    def __init__(self, fn, etype):
        self.fn, self.etype, self.armed, self.met = fn, etype, True, 0

    def host(self, name):
        def call(it, a, k):
            if self.armed:
                self.met += 1
                raise AbsRaise(self.etype, TEXT)
            return it.call(self.fn, a, k)
        return HostFunc(name, call)


def expect(s, fault, label, what, f, where):
    """The failure of the user's code is what the caller gets."""
    try:
        r = f()
    except AbsRaise as e:
        if e.etype == fault.etype and str(e.msg) == TEXT:
            s.chk.obl["structural"] += 1
            s.require(fault.met, label + "/evaluated", "%s: %s" % (e.etype, e.msg), where)
        elif fault.met:
            s.violation(label, "%s fails with %s (%s) although the user's code reported %s"
                        % (what, e.etype, e.msg, fault.etype), e.site or where, e.stack)
        else:
            raise
        return
    if fault.met:
        s.violation(label, "%s returns %s although the user's code reported %s"
                    % (what, short(r), fault.etype), where)
    else:
        s.violation(label + "/evaluated", "%s does not evaluate the user's code" % what, where)


def short(r):
    t = repr(r)
    return t if len(t) < 60 else t[:57] + "..."


def mentioned(project):
    """Further exception classes which the sources of the package name."""
    names = {getattr(x, "id", getattr(x, "attr", None)) for tree in project.trees.values()
             for x in ast.walk(tree) if isinstance(x, (ast.Name, ast.Attribute))}
    return tuple(sorted(e for e in names & set(EXC) if e not in ERRORS
                        and not exc_is(e, "Warning") and e != "GeneratorExit"))


def errors(chk):
    """C39: failures of user-supplied code reach the caller."""
    thorough = chk.tier == "thorough"
    kinds = ERRORS + mentioned(chk.project)

    def run(s, p, what, part, etype):
        st = p.stub(s, tag="")
        fault = Fault(st.obj.attrs[part], etype)
        st.obj.attrs[part] = fault.host("material." + part)
        o = p.build(s, st)
        where = s.where_of(o)
        x, y = p.inputs(s, "a"), p.inputs(s, "b")
        old = stubs.token("state")
        if part != what:
            # the other derivative is evaluated only where it is needed
            try:
                p.call(s, o, what, x, old)
            except AbsRaise as e:
                if not (e.etype == etype and str(e.msg) == TEXT and fault.met):
                    s.violation("other", "the %s fails with %s (%s)%s" % (
                        what, e.etype, e.msg, " although the user's code reported " + etype
                        if fault.met else ""), e.site or where, e.stack)
                s.chk.obl["structural"] += 1
            else:
                s.require(not fault.met, "other", "the %s returns values although the user's "
                          "code reported %s" % (what, etype), where)
        else:
            expect(s, fault, "fails", "the " + what, lambda: p.call(s, o, what, x, old), where)
        fault.armed = False
        for w in ("gradient", "hessian") if what == "gradient" else ("hessian", "gradient"):
            st2 = p.stub(s, tag="")
            o2 = p.build(s, st2)
            r, _ = p.result(w, p.call(s, o, w, y, old))
            r2, _ = p.result(w, p.call(s, o2, w, y, old))
            same_results(s, r, r2, "afterwards/" + w, where, w + " after a failed evaluation")

    flat = pipes(nested=False, models=False)
    for p in flat:
        for what in ("gradient", "hessian"):
            few = p.name == "stretches" and not thorough
            for part in ("gradient", "hessian"):
                for etype in kinds if part == what and not few else ERRORS[:1] + ERRORS[-1:]:
                    chk.scenario("error-%s-%s-%s-%s" % (p.name, what, part, etype),
                                 lambda s, p=p, w=what, part=part, e=etype: run(
                                     s, p, w, part, e), maxpaths=4000)

    def through(s, p, etype, **kw):
        """Through all layers."""
        for part in ("gradient", "hessian"):
            st = p.stub(s, tag="")
            fault = Fault(st.obj.attrs[part], etype)
            st.obj.attrs[part] = fault.host("material." + part)
            o = p.build(s, st, **kw)
            expect(s, fault, part, "the " + part, lambda: p.call(
                s, o, part, p.inputs(s, "a"), stubs.token("state")), s.where_of(o))

    nested = [p for p in pipes(models=False) if p.stub and p.name not in
              [y.name for y in flat]]
    for p in nested:
        for etype in kinds:
            chk.scenario("error-%s-%s" % (p.name, etype), lambda s, p=p, e=etype: through(
                s, p, e), maxpaths=4000)
    for p in flat:
        if p.name == "stretches":
            for etype in kinds:
                chk.scenario("error-only-%s-%s" % (p.name, etype), lambda s, p=p, e=etype:
                             through(s, p, e), maxpaths=4000)
    for p in pipes(models=False):
        if p.stub and p.name not in ("generalized",):
            for etype in ("ValueError", "UserError"):
                chk.scenario("error-parallel-%s-%s" % (p.name, etype), lambda s, p=p, e=etype:
                             through(s, p, e, parallel=True), maxpaths=4000)

    # strain measures, energies of automatic differentiation
    def strain(s, cls, etype):
        fun, _, _ = strain_stub()
        fault = Fault(fun, etype)
        st = stubs.invariants_material((n,))
        from ..inputs import sym, vec
        from .frameworks import points
        from .. import oracle as O
        from ..inputs import at

        def mk(t):
            if cls == GEN:
                C = sym("C" + t, (n,))
                for q_ in points((n,)):
                    alg.assume_positive(O.det3(O.full2(at(C, 1, q_))))
                return C
            return vec("lam" + t, 3, (n,), pos=True)
        for part in ("gradient", "hessian"):
            fault.armed, fault.met = True, 0

            def whole():
                o = s.call(cls, st.obj, fault.host("strain"))
                s.method(o, part, mk(""), stubs.token("state"))
            expect(s, fault, part, "the " + part, whole, None)

    for cls in (GEN, MODELS + ".stretches.GeneralizedInvariantsModel"):
        for etype in kinds:
            chk.scenario("error-strain-%s-%s" % (cls.split(".")[-1], etype),
                         lambda s, c=cls, e=etype: strain(s, c, e))

    def torch(s, etype):
        from ..absval import input_array
        good = torchlib.opaque("W", (0, 1, 2))
        fault = Fault(good, etype)
        md = s.call(MODELS + ".invariants.TorchModel", fault.host("energy"))
        ref = s.call(MODELS + ".invariants.TorchModel", good)
        where = s.where_of(md)
        I = [input_array("I%d" % (k + 1), (n,), pos=True) for k in range(3)]
        old = stubs.token("state")
        for part in ("gradient", "hessian"):
            fault.armed, fault.met = True, 0
            expect(s, fault, part, "the " + part, lambda: s.method(md, part, *I, old), where)
            fault.armed = False
            a = list(s.method(md, part, *I, old))[:6 if part == "hessian" else 3]
            b = list(s.method(ref, part, *I, old))[:6 if part == "hessian" else 3]
            same_results(s, a, b, "afterwards/" + part, where, part + " after a failed "
                         "evaluation")

    for etype in kinds:
        chk.scenario("error-energy-%s" % etype, lambda s, e=etype: torch(s, e),
                     libs_env=TORCH)

    # simulations and identifications
    def simulation(s, which, etype):
        m = Mat()
        x = stretch("x", (n,))
        labels = ["C10", "C01"]
        v = [alg.var("p_" + y) for y in labels]
        lc = s.call(LAB + "Uniaxial")
        fault = Fault(m.fn, etype)
        fn = m.fn
        if which == "material":
            fn = fault.host("material")
        elif which == "gradient":
            def build(it, a, k):
                o = m.build(it, a, k)
                fault.fn = o.attrs["gradient"]
                return HostObj("umat", {"gradient": fault.host("umat.gradient")})
            fn = HostFunc("material", build)
        else:
            own = {k: HostFunc(k, lambda it, a, kw, k=k: it.call(it.getattr(lc, k), a, kw))
                   for k in ("defgrad", "stress")}
            fault.fn = own[which]
            own[which] = fault.host(which)
            lc2 = HostObj("loadcase", {"label": "own", **own})
        sim = s.call(LAB + "Simulation", loadcase=lc if which in ("material", "gradient")
                     else lc2, stretch=x, labels=labels, material=fn, parameters=v)
        where = s.where_of(sim)
        y = stretch("y", (n,))
        o = [alg.var("o_" + z) for z in labels]
        expect(s, fault, "stress", "the stress", lambda: s.method(sim, "stress"), where)
        fault.met = 0
        expect(s, fault, "fit", "the stress for a fit",
               lambda: s.method(sim, "stress_curve_fit", y, *o), where)
        fault.armed = False
        s.array(s.method(sim, "stress"), (), (n,), lambda p: m.stress(
            "Uniaxial", x.data[p], dict(zip(labels, v))), "afterwards", where=where)

    for which in ("material", "gradient", "defgrad", "stress"):
        for etype in kinds:
            chk.scenario("error-simulation-%s-%s" % (which, etype),
                         lambda s, w=which, e=etype: simulation(s, w, e))

    def trial(s, etype, which):
        """A material which fails at trial parameters fails the fitted function."""
        L = Lab(s, cases=CASES[:2])
        plain = s.it.curve_fit_hook

        def hook(i, a, k):
            r = plain(i, a, k)
            f = a[0] if a else k["f"]
            x = a[1] if len(a) > 1 else k["xdata"]
            L.mats[which].fail = (etype, TEXT)
            fault = Fault(None, etype)
            fault.met = 1
            expect(s, fault, "trial", "the fitted function", lambda: i.call(
                f, [x] + [alg.var("trial%d" % j) for j in range(len(L.labels))], {}), L.where)
            L.mats[which].fail = None
            return r
        s.it.curve_fit_hook = hook
        s.method(L.opt, "curve_fit")

    for etype in kinds:
        for which in (0, 1):
            chk.scenario("error-trial-%s-%d" % (etype, which),
                         lambda s, e=etype, w=which: trial(s, e, w))

    def fit(s, etype, start, later):
        """The fit does not succeed: the caller gets the failure and everything is as before."""
        L = Lab(s, cases=CASES[:2], start=start)
        it = s.it
        plain = it.curve_fit_hook
        before = list(L.p0)
        if later:
            s.method(L.opt, "curve_fit")
            before = list(L.fits[-1]["popt"].data.ravel())
        met = [0]

        def hook(i, a, k):
            met[0] += 1
            plain(i, a, k)
            raise AbsRaise(etype, TEXT)
        it.curve_fit_hook = hook
        fault = Fault(None, etype)
        try:
            r = s.method(L.opt, "curve_fit")
            s.violation("fit", "the identification returns %s although the fit failed with %s"
                        % (short(r), etype), L.where)
            return
        except AbsRaise as e:
            if not (e.etype == etype and str(e.msg) == TEXT):
                if not met[0]:
                    raise
                s.violation("fit", "the identification fails with %s (%s) although the fit "
                            "failed with %s" % (e.etype, e.msg, etype), e.site, e.stack)
        assert fault
        npar = len(L.labels)
        s.array(npm.as_arr(it.getattr(L.opt, "parameters")), (), (npar,),
                lambda p: before[p[0]], "parameters", where=L.where)
        for k, sim in enumerate(L.sims):
            s.array(npm.as_arr(it.getattr(sim, "parameters")), (), (npar,),
                    lambda p: before[p[0]], "simulation%d" % k, where=L.where)
        s.untouched(L.guards, "inputs", L.names)

    for etype in ("RuntimeError", "ValueError", "TypeError", "UserError"):
        for start in ("float", "list"):
            for later in (False, True):
                chk.scenario("error-fit-%s-%s-%s" % (etype, start, "second" if later else
                                                     "first"),
                             lambda s, e=etype, st=start, lt=later: fit(s, e, st, lt))


assert STR
