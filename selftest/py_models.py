"""Developer tool (not a check): compares the interpreter with Python on small programs."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from hlint import alg, libs, npm, torchlib  # noqa: E402
from hlint.interp import Project, explore, Interp, AObj  # noqa: E402

P = Project(os.environ.get("HLINT_REPO", "/repo") + "/src")


def norm(x):
    from fractions import Fraction
    if isinstance(x, alg.Poly):
        x = x.as_const()
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, (list, tuple)):
        return type(x)(norm(y) for y in x) if type(x) in (list, tuple) else tuple(
            norm(y) for y in x)
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, float) and x == int(x):
        return int(x)
    return x


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    progs = open(os.path.join(here, "programs.txt")).read().split("\n###")
    n = bad = uns = 0
    for src in progs:
        name, _, src = src.partition("\n")
        if sys.argv[1:] and not any(a in name for a in sys.argv[1:]):
            continue
        if not src.strip():
            continue
        n += 1
        ns = {}
        try:
            exec(src, ns)
            want = ns["f"]()
        except Exception as e:  # noqa: BLE001
            want = ("raises", type(e).__name__)
        pr = torchlib.with_source(P, src, "prog")

        def make(dec):
            it = Interp(pr, dec, libs.default())
            npm.CUR = it
            return it

        def entry(it):
            m = it.load("prog")
            return it.call(m.ns["f"], [], {})
        try:
            ps = list(explore(make, entry, 8))
        except Exception as e:  # noqa: BLE001
            import traceback
            bad += 1
            print("CRASH", name, repr(e), traceback.format_exc().strip().split("\n")[-4:])
            continue
        p = ps[0]
        if len(ps) > 1:
            print("PARTS", name)
            bad += 1
        elif p.unsupported:
            print("UNSUP", name, p.unsupported[:150])
            uns += 1
        elif p.error is not None:
            if want != ("raises", p.error.etype):
                print("DIFF", name, "raises", p.error.etype, p.error.msg[:100], "wanted", want)
                bad += 1
        elif norm(p.value) != norm(want):
            print("DIFF", name, norm(p.value), "wanted", norm(want))
            bad += 1
    print("%d programs, %d differ, %d not modelled" % (n, bad, uns))


if __name__ == "__main__":
    main()
assert AObj
