"""Runs scenarios (abstract interpretations of the package from one of its entry points),
compares their abstract results with the oracle and collects obligations."""

import copy
import multiprocessing
import multiprocessing.connection
import os
import signal
import time
import traceback

import numpy as np

from . import absval, alg, libs, npm
from .absval import AArray, AbsRaise, Cond, Dim, Unsupported, dlen
from .alg import Poly, topoly
from .interp import AClass, AFunc, AObj, Bound, Interp, Project, explore

REPO = os.environ.get("HLINT_REPO", "/repo")


class Finding:
    def __init__(self, kind, scenario, label, msg, where, cond):
        self.kind, self.scenario, self.label = kind, scenario, label
        self.msg, self.where, self.cond = msg, where, cond

    @property
    def key(self):
        return "%s/%s" % (self.scenario, self.label)

    def text(self):
        w = "%s:%s in %s" % tuple(self.where) if self.where else "?"
        s = "[%s] %s: %s" % (self.key, w, self.msg)
        if self.cond:
            s += "\n    when " + "\n     and ".join(self.cond[:6])
        return s


class Check:
    """One check run: obligations of one property."""

    def __init__(self, prop, tier="quick", seed=1, project=None, stop_early=False):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.project = project or Project(os.path.join(REPO, "src"))
        self.findings = []          # violations
        self.undetermined = []
        self.scenarios = {}         # name -> number of partitions
        self.obl = {"exact": 0, "tested": 0, "structural": 0}
        self.functions = set()
        self.sites = set()          # (scenario, label) of the decided obligations
        self.samples = []
        self.controls = 0
        self.boundary = 0
        self.assumptions = set()
        self.events = []
        self.paths = 0
        self.stop_early = stop_early
        self.deadline = None
        self.errors = []
        self.prefix = ""            # of scenario names
        self.jobs = None            # collected scenarios
        self.integers = False       # generic inputs are integer-valued

    # ---- scenario ---------------------------------------------------------------------
    def scenario(self, name, entry, libs_env=None, setup=None, project=None, limit=None,
                 maxpaths=600):
        """entry(s) with s a Scene; explored once per partition of undecided conditions."""
        job = (self.prefix + name, entry, libs_env, setup, project, maxpaths, self.integers)
        if self.jobs is not None:
            self.jobs.append(job)
        else:
            self.analyse(*job)

    def analyse(self, name, entry, libs_env, setup, project, maxpaths, integers):
        if self.stop_early and self.findings:
            return
        absval.INTEGERS[0] = integers
        n = 0
        before = len(self.findings)
        scenes = {}

        def make(dec):
            it = Interp(project or self.project, dec, libs.default(libs_env))
            if setup is not None:
                setup(it)
            return it

        def run(it):
            sc = Scene(self, name, it)
            scenes[id(it)] = sc
            alg.BUDGET[0] = 60_000_000
            try:
                return entry(sc)
            except alg.TooBig as e:
                raise Unsupported(str(e))
            except Stop:
                return None
            except RecursionError:
                raise Unsupported("recursion in the analysed program")
            finally:
                alg.BUDGET[0] = None

        for p in explore(make, run, maxpaths):
            n += 1
            sc = scenes.get(id(p.interp)) or Scene(self, name, p.interp)
            self.functions |= p.interp.visited
            if p.error is not None:
                e = p.error
                sc.violation("exception", "%s: %s" % (e.etype, e.msg), e.site, e.stack)
            elif p.unsupported is not None:
                sc.unknown("unsupported", p.unsupported)
            sc.flush()
            if self.stop_early and self.findings:
                break
            if n >= 64 and len(self.findings) > before:
                break           # enough of a scenario which is violated
        self.scenarios[name] = self.scenarios.get(name, 0) + n
        self.paths += n

    # ---- many scenarios at once -----------------------------------------------------------
    COLLECT = ("findings", "undetermined", "scenarios", "obl", "functions", "sites", "samples",
               "controls", "boundary", "paths", "errors")

    def snapshot(self):
        return {k: copy.copy(getattr(self, k)) for k in self.COLLECT}

    def reset(self):
        self.findings, self.undetermined, self.scenarios = [], [], {}
        self.obl = {"exact": 0, "tested": 0, "structural": 0}
        self.functions, self.samples, self.errors = set(), [], []
        self.sites = set()
        self.controls = self.boundary = self.paths = 0

    def merge(self, d):
        for k in ("findings", "undetermined"):
            mine = getattr(self, k)
            for f in d[k]:
                if not any(g.key == f.key and g.msg == f.msg for g in mine):
                    mine.append(f)
        for k, v in d["scenarios"].items():
            self.scenarios[k] = self.scenarios.get(k, 0) + v
        for k, v in d["obl"].items():
            self.obl[k] = self.obl.get(k, 0) + v
        self.functions |= d["functions"]
        self.sites |= d["sites"]
        self.samples = (self.samples + d["samples"])[:3]
        self.errors += d["errors"]
        self.controls += d["controls"]
        self.boundary += d["boundary"]
        self.paths += d["paths"]

    def one(self, k):
        """Analyses the k-th collected scenario, within what is left of the time."""
        left = 10 ** 6 if self.deadline is None else self.deadline - time.time()
        name = self.jobs[k][0]
        jobs, self.jobs = self.jobs, None

        def alarm(*_):
            raise TimeUp()
        t0 = time.time()
        old = signal.signal(signal.SIGALRM, alarm)
        try:
            signal.alarm(max(1, int(min(left, self.share))))
            if left <= 1:
                raise TimeUp()
            self.analyse(*jobs[k])
        except TimeUp:
            alg.BUDGET[0] = None
            self.scenarios.setdefault(name, 0)
            self.undetermined.append(Finding("undetermined", name, "time",
                                             "time budget exhausted", None, []))
        except Exception:       # an error of the analyser
            self.scenarios.setdefault(name, 0)
            self.errors.append("%s: %s" % (name, traceback.format_exc()))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            self.jobs = jobs
        self.times[name] = round(time.time() - t0, 2)

    def collect(self):
        self.jobs = []

    def run(self, nproc=None, seconds=None, share=600):
        """Analyses the collected scenarios on all cores; the result does not depend on
        the number of processes."""
        self.deadline = None if seconds is None else time.time() + seconds
        self.share = share
        self.times = {}
        n = len(self.jobs)
        nproc = max(1, min(n, nproc or len(os.sched_getaffinity(0))))
        base = self.snapshot()
        parts = {}
        if nproc == 1:
            for k in range(n):
                self.reset()
                self.one(k)
                parts[k] = self.snapshot()
        else:
            ctx = multiprocessing.get_context("fork")
            nxt = ctx.Value("i", 0)
            pipes = []
            for _ in range(nproc):
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=self._worker, args=(nxt, n, w))
                p.start()
                w.close()
                pipes.append((p, r))
            live = {r: p for p, r in pipes}
            while live:
                for r in multiprocessing.connection.wait(list(live)):
                    try:
                        k, d, t = r.recv()
                    except EOFError:
                        live.pop(r).join()
                        continue
                    parts[k] = d
                    self.times.update(t)
        self.reset()
        self.merge(base)
        for k in range(n):
            if k in parts:
                self.merge(parts[k])
            else:
                self.errors.append("%s: the process which analysed it has died"
                                   % self.jobs[k][0])
        self.jobs = None

    def _worker(self, nxt, n, w):
        while True:
            with nxt.get_lock():
                k = nxt.value
                nxt.value += 1
            if k >= n:
                break
            self.reset()
            self.times = {}
            self.one(k)
            w.send((k, self.snapshot(), self.times))
        w.close()
        os._exit(0)


class TimeUp(BaseException):
    """A scenario has used up its time."""


class Stop(Exception):
    """Ends a scenario early (the rest would only repeat the same report)."""


class Scene:
    """Services for one partition of one scenario."""

    def __init__(self, chk, name, it):
        self.chk, self.name, self.it = chk, name, it
        self.pending = []
        self.controlled = False
        self.limit = {}
        self.points = None
        self.given = {}

    # -- program access -----------------------------------------------------------------
    def mod(self, name):
        return self.it.load(name)

    def attr(self, dotted):
        """Resolve a public dotted name of the package, e.g. 'hyperelastic.math.inv'."""
        parts = dotted.split(".")
        self.it.load(parts[0])
        o = self.it.modules[parts[0]]
        for k, p in enumerate(parts[1:], 1):
            try:
                o = self.it.getattr(o, p)
            except AbsRaise as e:
                full = ".".join(parts[:k + 1])
                if full in self.chk.project.trees:
                    o = self.it.load(full)
                else:
                    raise e
        return o

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.attr(f)
        self.chk.functions  # noqa: B018
        return self.it.call(f, list(args), kw)

    def method(self, o, name, *args, **kw):
        return self.it.call(self.it.getattr(o, name), list(args), kw)

    # -- reporting ----------------------------------------------------------------------
    def conds(self):
        return ["%s is %s (%s:%d)" % (c, v, os.path.basename(str(s[0])), s[1])
                for c, v, s in self.it.trace]

    def where_of(self, x):
        site = getattr(x, "site", None)
        if site:
            return relsite(site)
        if isinstance(x, Bound):
            x = x.fn
        if isinstance(x, (AFunc, AClass)) and (x.module is None or not x.module.path):
            return None
        if isinstance(x, AFunc):
            return (rel(x.module.path), x.node.lineno, x.qual)
        if isinstance(x, AObj):
            x = x.cls
        if isinstance(x, AClass) and x.node is not None:
            return (rel(x.module.path), x.node.lineno, x.qual)
        return None

    def violation(self, label, msg, where=None, stack=None):
        w = relsite(where) if where else None
        if stack:
            msg += " (call chain: %s)" % " > ".join("%s:%s" % (q, ln) for q, ln in stack)
        self.pending.append(Finding("violation", self.name, label, msg, w, self.conds()))

    def unknown(self, label, msg, where=None):
        self.pending.append(Finding("undetermined", self.name, label, msg,
                                    relsite(where) if where else None, self.conds()))

    def flush(self):
        for f in self.pending:
            tgt = self.chk.findings if f.kind == "violation" else self.chk.undetermined
            if not any(g.key == f.key and g.msg == f.msg for g in tgt):
                tgt.append(f)
        self.pending = []

    def decided(self, label, kind):
        self.chk.obl[kind] += 1
        self.chk.sites.add((self.name, label))

    def require(self, cond, label, msg, where=None):
        """A structural obligation."""
        self.decided(label, "structural")
        if not cond:
            self.violation(label, msg, where)
        return bool(cond)

    # -- equality -------------------------------------------------------------------------
    def pts(self):
        if self.points is None:
            self.points = [alg.Point("%s/%d/%d" % (self.name, self.chk.seed, k),
                                     dict(self.given)) for k in range(3)]
        return self.points

    def zero(self, p):
        """'exact', 'tested', 'nonzero' or 'unknown'."""
        p = topoly(p)
        if not p.t:
            return "exact"
        if self.it.eqs:
            p = alg.subst(p, self.it.eqs)
        if self.limit:
            p = alg.subst(p, self.limit)
        if not p.t:
            return "exact"
        bad = [a for a in (alg.ATOMS[i] for i in p.atoms(deep=True))
               if a.kind == "f" and a.payload[0] in ("nan",)]
        if bad:
            return "nan"
        if alg.has_unknown(p):
            return "unknown"
        if len(p.t) < 400 and self._plain(p):
            return "nonzero"
        if alg.refutes(p, self.pts()[0]):
            return "nonzero"
        r = alg.exactly_zero(p)
        if r:
            return "exact"
        if r is None:
            if any(alg.refutes(p, q) for q in self.pts()[1:]):
                return "nonzero"
            return "tested"
        # exact says nonzero although it vanishes at a generic point: relations between
        # atoms that only hold for the given (e.g. orthonormal) points
        if any(alg.refutes(p, q) for q in self.pts()[1:]):
            return "nonzero"
        return "tested"

    def _plain(self, p):
        """A nonzero polynomial in free variables only."""
        return all(alg.ATOMS[i].kind == "v" and i not in self.given for i in p.atoms()) and \
            all(isinstance(e, int) for m in p.t for _, e in m) and not self.given

    def same(self, got, want, label, where=None, what="value"):
        """One element equals the oracle's expression."""
        if isinstance(got, Cond) or isinstance(got, bool):
            self.violation(label, "%s is a truth value" % what, where)
            return False
        g, w = topoly(got), topoly(want)
        if g is None:
            self.violation(label, "%s is %r instead of a number" % (what, got), where)
            return False
        z = self.zero(g - w)
        if z == "nan":
            self.violation(label, "%s is not finite: %s; expected %s"
                           % (what, short(g), short(w)), where)
            return False
        if z == "nonzero":
            self.violation(label, "%s is %s; expected %s" % (what, short(g), short(w)), where)
            return False
        if z == "unknown":
            self.unknown(label, "%s depends on an unmodelled operation: %s"
                         % (what, short(g)), where)
            return False
        self.decided(label, z)
        if len(self.chk.samples) < 3:
            self.chk.samples.append("%s/%s: %s == %s (%s)" % (
                self.name, label, short(g, 90), short(w, 90), z))
        if not self.controlled:
            # positive control: the same comparison must reject a perturbed value
            self.controlled = True
            if self.zero(g + alg.ONE - w) != "nonzero":
                raise RuntimeError("comparison control failed in %s" % self.name)
            self.chk.controls += 1
        return True

    def array(self, got, lead, trax, fn, label, loose=False, where=None, dtype=None):
        """`got` is an array with leading axes `lead`, trailing axes `trax` and at each
        trailing point (index into stored representatives) the leading components fn(pt)
        (an object array of shape `lead`)."""
        where = where or self.where_of(got)
        if npm.is_scalar(got) and not isinstance(got, AArray):
            got = npm.as_arr(got)
        if not isinstance(got, AArray):
            self.violation(label, "result is %r instead of an array" % (got,), where)
            return False
        want = tuple(lead) + tuple(trax)
        dims = got.dims
        if dims != want:
            ok = False
            if loose and len(dims) == len(want):
                ok = all(d == w or d == 1 for d, w in zip(dims[len(lead):],
                                                          want[len(lead):])) and \
                    dims[:len(lead)] == tuple(lead)
            elif loose and len(dims) < len(want) and dims[:len(lead)] == tuple(lead):
                ok = len(dims) == len(lead)
            if not ok:
                self.violation(label, "result has shape %s; expected %s"
                               % (dims, want), where)
                return False
        self.decided(label, "structural")
        nl = len(lead)
        tshape = tuple(dlen(d) for d in trax)
        data = got.data
        if data.ndim < nl + len(tshape):
            data = data.reshape(data.shape + (1,) * (nl + len(tshape) - data.ndim))
        data = np.broadcast_to(data, tuple(lead) + tshape)
        good = True
        for pt in np.ndindex(*tshape):
            exp = np.asarray(fn(pt), dtype=object)
            for i in np.ndindex(*tuple(lead)):
                g = data[i + pt]
                e = exp[i] if exp.ndim else exp[()]
                ok = self.same(g, e, label, where, "component %s%s" % (
                    list(i), " at point %s" % (pt,) if pt else ""))
                if not ok:
                    good = False
                    break       # one component per point is enough
            if not good:
                break
        return good

    # -- input tracking -------------------------------------------------------------------
    def guard(self, *arrays):
        """Remember the contents of caller-owned arrays."""
        return [(a, a.data.copy(), a.dims) for a in arrays]

    def untouched(self, guards, label, names=None):
        for k, (a, d, dims) in enumerate(guards):
            nm = (names[k] if names else a.label) or "array"
            same = a.dims == dims and a.data.shape == d.shape and all(
                x is y or x == y for x, y in zip(a.data.ravel(), d.ravel()))
            self.require(same, label + "/" + str(nm), "the caller's array %s is modified" % nm,
                         self._writer(a))

    def _writer(self, a):
        for b, site in self.it.writes:
            if np.shares_memory(b.data, a.data):
                return site
        return None


def rel(p):
    p = str(p)
    return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p


def relsite(s):
    return (rel(s[0]),) + tuple(s[1:]) if s else None


def short(p, n=160):
    s = str(p)
    return s if len(s) <= n else s[:n] + "..."


assert Dim and traceback and Poly
