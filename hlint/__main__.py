"""hlint <property> [--tier quick|thorough] [--json FILE]: decides one property of the package
from its source code. Exit 0: no violation; 1: violation; 2: the analysis is broken."""

import argparse
import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"      # names of atoms do not vary between runs
    os.execv(sys.executable, [sys.executable, "-m", "hlint"] + sys.argv[1:])

from . import harness                       # noqa: E402
from .registry import RULES                 # noqa: E402

BASE = os.path.join(ROOT, "hlint", "baseline.json")
KNOWN = os.path.join(ROOT, "known-findings.txt")
FLOOR = 0.5


def known(prop):
    """Keys of the recorded findings of a property."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for ln in f:
                w = ln.split(None, 3)
                if len(w) > 2 and w[0] == "known:" and w[1] == "property=" + prop \
                        and w[2].startswith("key="):
                    out[w[2][4:]] = w[3].strip() if len(w) > 3 else ""
    return out


def analyse(prop, tier, seed, seconds):
    chk = harness.Check(prop, tier, seed)
    mod, fn = RULES[prop]
    chk.collect()
    getattr(importlib.import_module("hlint.rules." + mod), fn)(chk)
    chk.run(seconds=seconds, share=seconds * 0.8)
    return chk


def main():
    ap = argparse.ArgumentParser(prog="hlint")
    ap.add_argument("prop", choices=sorted(RULES))
    ap.add_argument("--tier", choices=["quick", "thorough"],
                    default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--baseline", action="store_true",
                    help="record the instance counts which were confirmed by hand")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    t0 = time.time()
    chk = analyse(a.prop, a.tier, seed, 600 if a.tier == "quick" else 3000)

    decided = sum(chk.obl.values())
    open_ = sorted({f.scenario for f in chk.undetermined}
                   | {e.split(":")[0] for e in chk.errors})
    listed = known(a.prop)
    old = [f for f in chk.findings if f.key in listed]
    new = [f for f in chk.findings if f.key not in listed]

    with open(BASE) as f:
        base = json.load(f)
    if a.baseline:
        base[a.prop] = {"scenarios": len(chk.scenarios), "obligations": len(chk.sites),
                        "functions": len(chk.functions)}
        with open(BASE, "w") as f:
            json.dump(base, f, indent=1, sort_keys=True)
            f.write("\n")
    floor = base.get(a.prop, {"scenarios": 1, "obligations": 1, "functions": 0})

    broken = []
    if any("control" in e and "RuntimeError" in e for e in chk.errors):
        broken.append("a positive control of the analyser fails")
    if not new:
        if len(chk.scenarios) < FLOOR * floor["scenarios"]:
            broken.append("%d scenarios instead of %d" % (len(chk.scenarios),
                                                          floor["scenarios"]))
        if len(chk.sites) < FLOOR * floor["obligations"]:
            broken.append("%d kinds of obligations decided instead of %d"
                          % (len(chk.sites), floor["obligations"]))
        if len(chk.functions) < 0.3 * floor["functions"]:
            broken.append("%d functions analysed instead of %d"
                          % (len(chk.functions), floor["functions"]))

    rule = importlib.import_module("hlint.rules." + RULES[a.prop][0])
    doc = (getattr(rule, RULES[a.prop][1]).__doc__ or "").strip()
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the syntax trees of the package in "
            "%s (which is neither imported nor executed): values are algebraic normal forms "
            "over free symbols, arrays carry symbolic shapes and aliasing, undecided "
            "conditions partition the traces. Every obligation compares an abstract result "
            "(or an effect, shape, exception) with the rule's specification. Rule: %s"
            % (os.path.join(harness.REPO, "src"), " ".join(doc.split())),
            "scenarios": len(chk.scenarios),
            "scenarios_undetermined": len(open_),
            "trace_partitions": chk.paths,
            "obligations_exact_normal_form": chk.obl["exact"],
            "obligations_normal_form_up_to_sampled_identity": chk.obl["tested"],
            "obligations_structural": chk.obl["structural"],
            "comparison_controls_fired": chk.controls,
            "functions_analysed": sorted(chk.functions),
            "scenario_names": sorted(chk.scenarios),
            "undetermined": [f.text() for f in chk.undetermined][:40],
            "analyser_errors": chk.errors[:10],
            "samples": chk.samples,
            "slowest_scenarios_s": sorted(((v, k) for k, v in chk.times.items()),
                                          reverse=True)[:5],
        },
        "assumptions": ASSUME + sorted(chk.assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    print("%s %s: %d scenarios, %d trace partitions, %d functions analysed; obligations: "
          "%d exact, %d tested normal forms, %d structural; %d controls; %d undetermined "
          "(%.1f s)" % (a.prop, doc.split("\n")[0], len(chk.scenarios), chk.paths,
                        len(chk.functions), chk.obl["exact"], chk.obl["tested"],
                        chk.obl["structural"], chk.controls, len(open_), time.time() - t0))
    for f in chk.undetermined[:None if a.v else 12]:
        print("UNDETERMINED: " + f.text())
    for e in chk.errors[:None if a.v else 5]:
        print("UNDETERMINED (error of the analyser): " + e)
    for k in sorted({f.key for f in old}):
        print("KNOWN-FINDING: property=%s %s (%s)" % (a.prop, listed[k], k))
    if new:
        path = os.path.join("evidence", "violation-%s.json" % a.prop)
        with open(os.path.join(ROOT, path), "w") as f:
            json.dump([{"key": x.key, "where": x.where, "message": x.msg, "when": x.cond,
                        "replay": "cd /verif && ./check %s -v" % a.prop} for x in new], f,
                      indent=1)
            f.write("\n")
        for x in new[:None if a.v else 12]:
            print(x.text())
        if len(new) > 12 and not a.v:
            print("... and %d more" % (len(new) - 12))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if broken:
        print("the analysis is broken: " + "; ".join(broken))
        return 2
    return 0


ASSUME = [
    "real arithmetic: rounding, overflow and cancellation are not modelled",
    "the modelled semantics of the used numpy, scipy, matplotlib and torch operations",
    "trailing axes of unknown length behave like two generic representatives",
]

if __name__ == "__main__":
    sys.exit(main())
