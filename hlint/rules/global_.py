"""Guarantees about the package as a whole: its public interface, the documented programs,
its requirements and its effects on the process."""

import ast
import io
import json
import os
import re
import sys
import tokenize

from .. import alg
from .. import harness
from .. import stubs
from .. import torchlib
from ..absval import AArray, AbsRaise, Dim, HostFunc, HostObj, Recorder, Top, Unsupported, \
    input_array
from ..inputs import n, sym
from ..interp import AClass, AFunc, Module, Project
from .behaviour import Pipe, pipes, same_results

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "hyperelastic"


def sources(chk):
    return chk.project.trees.items()


def where(chk, mod, node):
    return (chk.project.paths[mod][0], getattr(node, "lineno", 1), mod)


def functions(tree):
    """(qualified name, node) of all functions of a module."""
    def walk(node, pre):
        for x in ast.iter_child_nodes(node):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                q = pre + "." + x.name if pre else x.name
                if not isinstance(x, ast.ClassDef):
                    yield q, x
                yield from walk(x, q)
            else:
                yield from walk(x, pre)
    yield from walk(tree, "")


# the names which "from <module> import *" provides
EXPORTS = {
    "hyperelastic": "lab spaces frameworks math models __version__ DistortionalSpace "
                    "DilatationalSpace DeformationSpace InvariantsFramework "
                    "StretchesFramework GeneralizedInvariantsFramework",
    "hyperelastic.frameworks": "Invariants Stretches GeneralizedInvariants",
    "hyperelastic.lab": "Experiment Uniaxial Biaxial Planar IncompressibleHomogeneousStretch "
                        "Optimize Simulation",
    "hyperelastic.math": "astensor asvoigt cdya cdya_ik cdya_il ddot det dev dot dya eye inv "
                         "trace transpose eigh tril_from_triu triu_from_tril",
    "hyperelastic.models": "invariants stretches generalized",
    "hyperelastic.models.generalized": "deformation strain",
    "hyperelastic.models.invariants": "ThirdOrderDeformation TorchModel",
    "hyperelastic.models.stretches": "Ogden GeneralizedInvariantsModel",
    "hyperelastic.spaces": "Distortional Dilatational Deformation",
}
EXPORTS = {k: v.split() for k, v in EXPORTS.items()}


# -- public interface ------------------------------------------------------------------------


def api():
    with open(os.path.join(HERE, "api.json")) as f:
        return json.load(f)


def params_of(node, bound):
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    dfl = [None] * (len(pos) - len(a.defaults)) + [ast.unparse(d) for d in a.defaults]
    out = [[p, d] for p, d in zip(pos, dfl)]
    kwo = [[x.arg, None if d is None else ast.unparse(d)]
           for x, d in zip(a.kwonlyargs, a.kw_defaults)]
    if bound:
        out = out[1:]
    return {"positional": out, "keyword": kwo, "varargs": a.vararg is not None,
            "varkw": a.kwarg is not None, "posonly": max(0, len(a.posonlyargs) - bound)}


def signature(it, o, bound=False):
    """Parameters of a public callable, or None where they are unknown."""
    if isinstance(o, AClass):
        m, c = o.lookup("__init__")
        if m is None:
            return {"positional": [], "keyword": [], "varargs": False, "varkw": False,
                    "posonly": 0}
        return signature(it, m, True)
    if isinstance(o, AFunc) and hasattr(o.node, "args"):
        if getattr(o.node, "decorator_list", None):
            names = [ast.unparse(d) for d in o.node.decorator_list]
            if any(not x.startswith(("wraps", "functools.wraps", "staticmethod",
                                     "classmethod")) for x in names):
                return None
            if "staticmethod" in names:
                bound = False
        return params_of(o.node, bound)
    return None


def literal(src):
    try:
        return True, ast.literal_eval(src)
    except Exception:
        return False, None


def compatible(want, got):
    """Problems of calls written for `want` with a callable of signature `got`."""
    out = []
    if got is None:
        return out
    gp, gk = got["positional"], dict((a, b) for a, b in got["keyword"])
    for k, (nm, d) in enumerate(want["positional"]):
        if k < len(gp):
            if gp[k][0] == nm and want["posonly"] <= k < got["posonly"]:
                out.append("the argument %s cannot be given by keyword any more" % nm)
            if gp[k][0] != nm:
                if nm in dict(gp) or nm in gk:
                    out.append("the position of the argument %s has changed" % nm)
                elif not got["varkw"]:
                    out.append("the argument %s does not exist any more" % nm)
                continue
            g = gp[k][1]
        elif nm in gk and not got["varargs"]:
            out.append("the argument %s is keyword-only" % nm)
            g = gk[nm]
        elif got["varargs"] or got["varkw"]:
            continue
        else:
            out.append("the argument %s does not exist any more" % nm)
            continue
        if d is not None and g is None:
            out.append("the argument %s is not optional any more" % nm)
        elif d is not None and g is not None:
            a, x = literal(d)
            b, y = literal(g)
            if a and b and (x != y or type(x) is not type(y)) and not (
                    isinstance(x, (int, float)) and isinstance(y, (int, float))
                    and not isinstance(x, bool) and not isinstance(y, bool) and x == y):
                # `None` may stand for a default which is filled in by the function
                if y is not None:
                    out.append("the default of the argument %s is %s instead of %s"
                               % (nm, g, d))
    for nm, d in want["keyword"]:
        if nm not in gk and nm not in dict(gp) and not got["varkw"]:
            out.append("the argument %s does not exist any more" % nm)
    names = {x for x, _ in want["positional"] + want["keyword"]}
    for nm, d in gp + got["keyword"]:
        if nm not in names and d is None:
            out.append("the new argument %s is required" % nm)
    return out


def interface(chk):
    """C49: the public interface and its documentation."""
    spec = api()

    def exports(s, mod):
        m = s.mod(mod)
        path = chk.project.paths[mod][0]
        names = m.ns.get("__all__")
        if names is not None:
            for x in names:
                ok = isinstance(x, str) and (x in m.ns or mod + "." + x in chk.project.trees)
                s.require(ok, "all/%s" % x, "%s.__all__ lists %r, which does not exist"
                          % (mod, x), (path, 1, mod))
            s.require(len(set(names)) == len(names), "all", "%s.__all__ has duplicates" % mod,
                      (path, 1, mod))
        # the names which a star import has to provide
        for x in EXPORTS.get(mod, ()):
            ok = x in names if names is not None else not x.startswith("_") and x in m.ns
            s.require(ok, "all/%s" % x, "%s no longer exports %r" % (mod, x), (path, 1, mod))

    for mod, _ in sources(chk):
        chk.scenario("exports-%s" % mod, lambda s, mod=mod: exports(s, mod))

    def public(s, dotted, want):
        mod = ".".join(dotted.split(".")[:-1])
        try:
            o = s.attr(dotted)
        except AbsRaise as e:
            s.violation(dotted, "the documented name %s does not exist: %s" % (dotted, e),
                        (chk.project.paths.get(mod, chk.project.paths[PKG])[0], 1, mod))
            return
        w = s.where_of(o)
        if want["kind"] == "class":
            s.require(isinstance(o, (AClass, HostFunc)), dotted, "%s is not a class" % dotted,
                      w)
        for pb in compatible(want["signature"], signature(s.it, o)) if want["signature"] \
                else []:
            s.violation(dotted + "/signature", "%s: %s" % (dotted, pb), w)
        chk.obl["structural"] += 1
        if isinstance(o, AClass):
            for meth, sg in want.get("methods", {}).items():
                m, c = o.lookup(meth)
                if not s.require(m is not None, dotted + "." + meth,
                                 "the documented method %s.%s does not exist"
                                 % (dotted, meth), w):
                    continue
                wm = s.where_of(m)
                for pb in compatible(sg, signature(s.it, m, True)):
                    s.violation(dotted + "." + meth + "/signature", "%s.%s: %s"
                                % (dotted, meth, pb), wm)
                chk.obl["structural"] += 1
            for base in want.get("bases", []):
                b = s.attr(base)
                s.require(b in o.mro(), dotted + "/bases", "%s is not a subclass of %s"
                          % (dotted, base), w)

    for dotted, want in spec.items():
        chk.scenario("public-%s" % dotted, lambda s, d=dotted, w=want: public(s, d, w))

    def identities(s):
        for a, b in [("InvariantsFramework", "frameworks.Invariants"),
                     ("StretchesFramework", "frameworks.Stretches"),
                     ("GeneralizedInvariantsFramework", "frameworks.GeneralizedInvariants"),
                     ("DeformationSpace", "spaces.Deformation"),
                     ("DistortionalSpace", "spaces.Distortional"),
                     ("DilatationalSpace", "spaces.Dilatational")]:
            x, y = s.attr(PKG + "." + a), s.attr(PKG + "." + b)
            s.require(x is y, a, "%s is not %s" % (a, b), (chk.project.paths[PKG][0], 1, PKG))
    chk.scenario("aliases", identities)

    # documented defaults
    def documented(s, mod, tree):
        for q, f in functions(tree):
            doc = ast.get_docstring(f)
            if not doc or "Parameters\n" not in doc:
                continue
            sec = doc.split("Parameters\n", 1)[1]
            sec = re.split(r"\n[A-Z][A-Za-z ]+\n-{3,}", sec)[0]
            bound = "." in q and not any(ast.unparse(d) == "staticmethod"
                                         for d in f.decorator_list)
            sg = params_of(f, bound)
            have = dict(map(tuple, sg["positional"] + sg["keyword"]))
            for m in re.finditer(r"^(\w+) : (.*)\n((?:[ \t]+.*\n?|\n)*)", sec, re.M):
                nm, body = m.group(1), m.group(3)
                s.require(nm in have or sg["varkw"], "%s/%s" % (q, nm), "the documented "
                          "argument %s of %s does not exist" % (nm, q), where(chk, mod, f))
                d = re.search(r"default is\s+([^)]*?)\s*\)", body, re.S)
                if d and nm in have and have[nm] is not None:
                    txt = d.group(1).strip().strip("`").rstrip(".")
                    a, x = literal(txt)
                    b, y = literal(have[nm])
                    if a and b:
                        s.require(x == y, "%s/%s-default" % (q, nm), "the default of the "
                                  "argument %s of %s is %s although %s is documented"
                                  % (nm, q, have[nm], txt), where(chk, mod, f))
    for mod, tree in sources(chk):
        chk.scenario("documented-%s" % mod, lambda s, m=mod, t=tree: documented(s, m, t))


def make_api(chk):
    """Collects the documented interface (used once to write api.json)."""
    out = {}

    def go(s):
        names = {}
        for mod in ("", ".frameworks", ".spaces", ".lab", ".models", ".models.invariants",
                    ".models.stretches", ".models.generalized"):
            m = s.mod(PKG + mod)
            for x in m.ns["__all__"]:
                names[PKG + mod + "." + x] = None
        m = s.mod(PKG + ".math")
        for x in m.ns:
            if not x.startswith("_"):
                names[PKG + ".math." + x] = None
        for d in names:
            o = s.attr(d)
            e = {"kind": "other", "signature": None}
            if isinstance(o, AClass):
                e["kind"] = "class"
                e["signature"] = signature(s.it, o)
                e["methods"] = {}
                for c in o.mro():
                    for k, v in c.ns.items():
                        if isinstance(v, AFunc) and not k.startswith("_") \
                                and k not in e["methods"]:
                            e["methods"][k] = params_of(v.node, True)
            elif isinstance(o, AFunc):
                e["kind"] = "function"
                e["signature"] = signature(s.it, o)
            elif isinstance(o, Module):
                e["kind"] = "module"
            out[d] = e
    chk.scenario("api", go)
    return out


# -- documented programs ------------------------------------------------------------------------


def blocks(text, kind):
    if kind == "md":
        return re.findall(r"```python\n(.*?)```", text, re.S)
    out = []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        if re.match(r"\s*\.\.\s+code-block::\s+python\s*$", lines[i]):
            ind = len(lines[i]) - len(lines[i].lstrip())
            i += 1
            blk = []
            while i < len(lines) and (not lines[i].strip() or len(lines[i]) - len(
                    lines[i].lstrip()) > ind):
                blk.append(lines[i])
                i += 1
            import textwrap
            out.append(textwrap.dedent("\n".join(blk)))
        else:
            i += 1
    return out


def doctest_source(doc):
    """Statements of the >>> lines of a docstring."""
    out = []
    for ln in doc.split("\n"):
        t = ln.strip()
        m = re.match(r"(?:>>>|\.\.\.)(?: (.*))?$", t)
        if m:
            out.append(m.group(1) or "")
    return "\n".join(out)


def documented_programs(chk):
    """[(name, source, project with the program)] of the complete documented programs"""
    progs = []
    root = harness.REPO
    for path, kind in [("README.md", "md"), ("docs/tutorial/getting_started.rst", "rst")]:
        p = os.path.join(root, path)
        if os.path.exists(p):
            with open(p, encoding="utf-8") as f:
                bl = blocks(f.read(), kind)
            if bl:
                progs.append((path, "\n".join(bl)))
    for mod, tree in sources(chk):
        for node in ast.walk(tree):
            if isinstance(node, (ast.ClassDef, ast.FunctionDef)):
                doc = ast.get_docstring(node)
                if not doc or node.name.startswith("_"):
                    continue
                if ">>>" in doc:
                    src = doctest_source(doc)
                else:
                    bl = blocks(doc, "rst")
                    src = "\n".join(bl)
                if src.strip():
                    progs.append((mod + "." + node.name, src))
    out = []
    for name, src in progs:
        try:
            out.append((name, src, torchlib.with_source(chk.project, src,
                                                        "documented_program")))
        except SyntaxError:
            pass            # not a complete program
    return out


def program_setup():
    def setup(it):
        npmod = it.load("numpy")
        count = [0]

        def linspace(i, a, k):
            count[0] += 1
            return input_array("linspace%d" % count[0], (Dim("points%d" % min(
                count[0], 1)),), pos=True)
        npmod.ns["linspace"] = HostFunc("linspace", linspace)

        def fit(i, a, k):
            p0 = k.get("p0", a[3] if len(a) > 3 else None)
            i.call(a[0], [a[1]] + list(i.iterate(p0)), {})
            m = len(list(i.iterate(p0)))
            return (input_array("popt", (m,)), input_array("pcov", (m, m)))
        it.curve_fit_hook = fit
    return setup


def programs(chk):
    """C52: documented programs run."""
    for name, src, proj in documented_programs(chk):
        def go(s, name=name):
            try:
                s.mod("documented_program")
            except AbsRaise as e:
                site = e.site
                inside = any(q.startswith(PKG) for q, _ in (e.stack or []))
                s.chk.obl["structural"] += 1
                if inside or e.etype in ("ImportError", "ModuleNotFoundError",
                                         "NameError") or (
                        e.etype == "AttributeError" and PKG in str(e.msg)):
                    s.violation("program", "the documented program of %s fails: %s: %s"
                                % (name, e.etype, e.msg), site, e.stack)
                else:
                    s.unknown("program", "%s: %s" % (e.etype, e.msg), site)
                return
            except Unsupported as e:
                s.unknown("program", str(e))
                return
            s.chk.obl["structural"] += 1
        chk.scenario("program-%s" % name, go, project=proj, setup=program_setup(),
                     libs_env={"torch": torchlib.module})


# -- requirements --------------------------------------------------------------------------------


def fstrings(src):
    """(line, construct) of f-strings which only Python 3.12 and newer accept."""
    start = getattr(tokenize, "FSTRING_START", None)
    if start is None:
        return
    stack = []
    for tok in tokenize.generate_tokens(io.StringIO(src).readline):
        if tok.type == start:
            q = tok.string.lstrip("rRfFbBuU")
            if any(x in q for x in stack):
                yield tok.start[0], "a quote which is also the one of the string"
            stack.append(q)
        elif tok.type == tokenize.FSTRING_END:
            stack.pop()
        elif not stack or tok.type == tokenize.FSTRING_MIDDLE and len(stack) == 1:
            continue
        elif "\\" in tok.string:
            yield tok.start[0], "a backslash"
        elif tok.type == tokenize.COMMENT:
            yield tok.start[0], "a comment"
        elif tok.type == tokenize.STRING and any(x in tok.string for x in stack):
            yield tok.start[0], "a quote which is also the one of the string"
        elif tok.type in (tokenize.NL, tokenize.NEWLINE) and any(len(x) == 1 for x in stack):
            yield tok.start[0], "a line break"


def fstring_control():
    good = ['x = f"{a!r:>{w}} {b}"\n', 'x = f"{b[1]} {d[\'k\']}"\n',
            'x = f"""{d["k"]}\n{e}"""\n', 'x = rf"{a} \\pm"\n']
    bad = ["x = f'{a['k']}'\n", 'x = f"{\'\\n\'.join(a)}"\n', "x = f'{f'{a}'}'\n",
           'x = f"""{a  # c\n}"""\n', "x = f'{a +\n b}'\n"]
    if any(list(fstrings(g)) for g in good) or not all(list(fstrings(b)) for b in bad):
        raise RuntimeError("control of the f-string rule failed")


def requirements(chk):
    """C50: requirements of the package: imports, language version, optional packages."""
    import tomllib
    with open(os.path.join(harness.REPO, "pyproject.toml"), "rb") as f:
        meta = tomllib.load(f)["project"]
    dist = {re.split(r"[\s<>=!\[;~]", d)[0].lower() for d in meta["dependencies"]}
    std = set(sys.stdlib_module_names) | {"__future__"}
    py = re.search(r"(\d+)\.(\d+)", meta["requires-python"])
    version = (int(py.group(1)), int(py.group(2)))

    def toplevel(tree):
        """Import statements which are executed when the module is imported."""
        def walk(body):
            for x in body:
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    yield x
                elif isinstance(x, ast.If):
                    if "TYPE_CHECKING" in ast.unparse(x.test):
                        yield from walk(x.orelse)
                    else:
                        yield from walk(x.body)
                        yield from walk(x.orelse)
                elif isinstance(x, ast.Try):
                    caught = any(h.type is None or "Error" in ast.unparse(h.type)
                                 or "Exception" in ast.unparse(h.type) for h in x.handlers)
                    if not caught:
                        yield from walk(x.body)
                    for h in x.handlers:
                        yield from walk(h.body)
                    yield from walk(x.orelse)
                    yield from walk(x.finalbody)
                elif isinstance(x, (ast.ClassDef, ast.With, ast.For, ast.While)):
                    yield from walk(x.body)
        yield from walk(tree.body)

    def imports(s, mod, tree):
        nimp = 0
        for node in toplevel(tree):
            names = [a.name for a in node.names] if isinstance(node, ast.Import) else \
                [] if node.level else [node.module]
            for nm in names:
                nimp += 1
                top = nm.split(".")[0]
                s.require(top in std or top in dist or top == PKG, "import/" + top,
                          "importing %s requires %s, which is not a declared dependency"
                          % (mod, top), where(chk, mod, node))
        s.chk.obl["structural"] += 1

    for mod, tree in sources(chk):
        chk.scenario("imports-%s" % mod, lambda s, m=mod, t=tree: imports(s, m, t))

    # imports which are executed on use: only the packages which the documentation names as
    # optional (where they are needed is decided below, by evaluation without them)
    optional = {"torch", "einsumt"}

    def handled(node, up):
        """Inside of a try statement which catches the missing module."""
        while node in up:
            par = up[node]
            if isinstance(par, ast.Try) and node in par.body and any(
                    h.type is None or re.search("Error|Exception", ast.unparse(h.type))
                    for h in par.handlers):
                return True
            node = par
        return False

    def lazy(s, mod, tree):
        up = {c: x for x in ast.walk(tree) for c in ast.iter_child_nodes(x)}
        top = set(toplevel(tree))
        for x in ast.walk(tree):
            names = []
            if isinstance(x, ast.Import) and x not in top:
                names = [a.name for a in x.names]
            elif isinstance(x, ast.ImportFrom) and x not in top and not x.level:
                names = [x.module]
            elif isinstance(x, ast.Call) and x.args and isinstance(x.args[0], ast.Constant) \
                    and isinstance(x.args[0].value, str) \
                    and ast.unparse(x.func).split(".")[-1] in ("import_module", "__import__"):
                names = [x.args[0].value]
            for nm in names:
                k = nm.split(".")[0]
                if not k or handled(x, up):
                    continue
                s.require(k in std or k in dist or k == PKG or k in optional, "uses/" + k,
                          "%s requires %s on use, which is neither a declared dependency nor "
                          "a documented optional package" % (mod, k), where(chk, mod, x))
        s.chk.obl["structural"] += 1

    for mod, tree in sources(chk):
        chk.scenario("uses-%s" % mod, lambda s, m=mod, t=tree: lazy(s, m, t))

    def language(s, mod):
        src = chk.project.sources[mod]
        path = chk.project.paths[mod][0]
        try:
            ast.parse(src, path, feature_version=version)
            s.chk.obl["structural"] += 1
        except SyntaxError as e:
            s.violation("syntax", "%s is not valid in Python %d.%d: %s" % (
                mod, *version, e.msg), (path, e.lineno or 1, mod))
        for line, what in fstrings(src) if version < (3, 12) else ():
            s.violation("syntax", "%s in the expression part of an f-string is not valid in "
                        "Python %d.%d" % (what, *version), (path, line, mod))
        for node, what in newer(chk.project.trees[mod]):
            s.violation("runtime", "%s does not exist in Python %d.%d" % (what, *version),
                        where(chk, mod, node))

    NEWER = {"functools.cache": (3, 9), "math.lcm": (3, 9), "math.nextafter": (3, 9),
             "itertools.pairwise": (3, 10), "itertools.batched": (3, 12),
             "math.cbrt": (3, 11), "math.exp2": (3, 11), "math.sumprod": (3, 12),
             "zoneinfo": (3, 9), "tomllib": (3, 11), "graphlib": (3, 9),
             "typing.Self": (3, 11), "typing.TypeAlias": (3, 10), "typing.ParamSpec": (3, 10),
             "types.NoneType": (3, 10), "enum.StrEnum": (3, 11), "operator.call": (3, 11),
             "math.ulp": (3, 9), "math.fma": (3, 13), "random.randbytes": (3, 9),
             "functools.Placeholder": (3, 14),
             "typing.Annotated": (3, 9), "typing.Required": (3, 11), "typing.Never": (3, 11),
             "typing.Unpack": (3, 11), "typing.assert_never": (3, 11),
             "typing.override": (3, 12), "typing.NotRequired": (3, 11),
             "typing.TypeGuard": (3, 10), "typing.Concatenate": (3, 10),
             "typing.dataclass_transform": (3, 11), "typing.assert_type": (3, 11),
             "collections.abc.Buffer": (3, 12), "statistics.correlation": (3, 10),
             "statistics.linear_regression": (3, 10), "statistics.covariance": (3, 10),
             "importlib.resources.files": (3, 9), "warnings.deprecated": (3, 13),
             "copy.replace": (3, 13), "inspect.get_annotations": (3, 10),
             "datetime.UTC": (3, 11), "asyncio.to_thread": (3, 9),
             "asyncio.TaskGroup": (3, 11), "builtins.aiter": (3, 10),
             "contextlib.chdir": (3, 11), "contextlib.aclosing": (3, 10)}

    def newer(tree):
        al = aliases(tree)
        deferred = any(isinstance(x, ast.ImportFrom) and x.module == "__future__"
                       and any(a.name == "annotations" for a in x.names) for x in tree.body)
        for x in ast.walk(tree):
            for full in resolve(x, al):
                if NEWER.get(full, (0, 0)) > version:
                    yield x, full
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                nms = [a.name for a in x.names] if isinstance(x, ast.Import) else \
                    [x.module or ""] + ["%s.%s" % (x.module, a.name) for a in x.names]
                for nm in nms:
                    if NEWER.get(nm, (0, 0)) > version:
                        yield x, nm
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) \
                    and x.func.id == "zip" and version < (3, 10) \
                    and any(k.arg == "strict" for k in x.keywords):
                yield x, "zip(strict=...)"
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
                    and x.func.attr in ("removeprefix", "removesuffix") and version < (3, 9):
                yield x, "str." + x.func.attr
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and not deferred:
                anns = [a.annotation for a in x.args.args + x.args.kwonlyargs] + [x.returns]
                for a in anns:
                    for y in ast.walk(a) if a is not None else ():
                        if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) \
                                and y.value.id in ("list", "dict", "tuple", "set", "type") \
                                and version < (3, 9):
                            yield y, "%s[...]" % y.value.id
                        if isinstance(y, ast.BinOp) and isinstance(y.op, ast.BitOr) \
                                and version < (3, 10):
                            yield y, "X | Y as a type"

    fstring_control()
    for mod, _ in sources(chk):
        chk.scenario("language-%s" % mod, lambda s, m=mod: language(s, m))

    # without the optional packages
    def missing(name):
        def make(it):
            raise AbsRaise("ModuleNotFoundError", "No module named '%s'" % name)
        return make
    env = {"torch": missing("torch"), "einsumt": missing("einsumt")}

    def without(s, p):
        st = p.stub(s) if p.stub else None
        x = p.inputs(s, "")
        old = stubs.token("state")
        try:
            o = p.build(s, st)
            for what in ("gradient", "hessian"):
                r, _ = p.result(what, p.call(s, o, what, x, old))
                s.require(r is not None, "evaluated/" + what, "%s has no result" % what)
        except AbsRaise as e:
            if e.etype not in ("ModuleNotFoundError", "ImportError"):
                raise
            s.violation("optional", "%s is needed: %s" % (p.name, e.msg), e.site, e.stack)

    def outdated(s):
        """Constructs which were met on the way and need a newer version of Python."""
        for what, v, site in s.it.newer:
            s.chk.obl["structural"] += 1
            if v > version:
                s.violation("runtime", "%s does not exist in Python %d.%d" % (what, *version),
                            site)

    def control(s):
        s.mod("newer")
        got = [x[0] for x in s.it.newer]
        s.require(got == ["the union of dictionaries"] * 2, "control",
                  "control of the version rule failed: %s" % got)
    chk.scenario("language-control", control, project=torchlib.with_source(
        chk.project, "d = {1: 2}\ne = d | {3: 4}\ne |= d\n", "newer"))

    def program(s):
        try:
            s.mod("documented_program")
        except (AbsRaise, Unsupported):
            pass            # decided by C52
        outdated(s)
    for name, src, proj in documented_programs(chk):
        chk.scenario("language-program-%s" % name, program, project=proj,
                     setup=program_setup(), libs_env={"torch": torchlib.module})

    for p in pipes(nested=False):
        if p.name not in ("torch", "stretches"):
            chk.scenario("without-optional-%s" % p.name,
                         lambda s, p=p: (without(s, p), outdated(s)), libs_env=env)

    def measures(s):
        lam = input_array("lam", (3, n), pos=True)
        for f in ("strain", "deformation"):
            s.call(PKG + ".models.generalized." + f, lam, exponent=alg.var("kexp", pos=True))
            s.chk.obl["structural"] += 1
        md = s.call(PKG + ".models.stretches.Ogden", mu=[1], alpha=[2])
        s.method(md, "gradient", lam, None)
        s.method(md, "hessian", lam, None)
        md = s.call(PKG + ".models.invariants.ThirdOrderDeformation", C10=1, C11=2, C30=1)
        I = [input_array("I%d" % k, (n,)) for k in range(3)]
        s.method(md, "gradient", *I, None)
        s.method(md, "hessian", *I, None)
        A, B = sym("A", (n,)), sym("B", (n,))
        for f in ("dya", "cdya", "cdya_ik", "cdya_il", "ddot", "dot"):
            s.call(PKG + ".math." + f, A, B)
        for f in ("det", "inv", "dev", "trace", "eye", "eigh", "astensor"):
            s.call(PKG + ".math." + f, A)
        for k in ("Uniaxial", "Planar", "Biaxial"):
            lc = s.call(PKG + ".lab." + k)
            s.method(lc, "defgrad", input_array("x", (n,), pos=True))
            s.chk.obl["structural"] += 1
    chk.scenario("without-optional-models", measures, libs_env=env)

    def loading(s):
        for mod, _ in sources(chk):
            s.mod(mod)
            s.chk.obl["structural"] += 1
    chk.scenario("without-optional-import", loading, libs_env=env)


# -- effects -----------------------------------------------------------------------------------------


def aliases(tree):
    """Imported names of a module (anywhere) -> dotted external name."""
    out = {}
    for x in ast.walk(tree):
        if isinstance(x, ast.Import):
            for a in x.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(x, ast.ImportFrom) and not x.level:
            for a in x.names:
                out[a.asname or a.name] = "%s.%s" % (x.module, a.name)
    return out


def dotted(x, al):
    if isinstance(x, ast.Name):
        return al.get(x.id)
    if isinstance(x, ast.Attribute):
        b = dotted(x.value, al)
        return None if b is None else b + "." + x.attr
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "getattr" \
            and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
        b = dotted(x.args[0], al)
        return None if b is None else "%s.%s" % (b, x.args[1].value)
    return None


def resolve(x, al):
    d = dotted(x, al)
    return [d] if d else []


SETTINGS = {
    "numpy.seterr": "numpy's floating-point error handling",
    "numpy.seterrcall": "numpy's floating-point error handling",
    "numpy.set_printoptions": "numpy's print options",
    "numpy.setbufsize": "numpy's buffer size",
    "numpy.random.seed": "the global random state",
    "numpy.random.set_state": "the global random state",
    "random.seed": "the global random state",
    "torch.set_default_dtype": "torch's default floating-point type",
    "torch.set_default_tensor_type": "torch's default tensor type",
    "torch.set_default_device": "torch's default device",
    "torch.set_grad_enabled": "torch's gradient mode",
    "torch.set_num_threads": "torch's number of threads",
    "torch.set_num_interop_threads": "torch's number of threads",
    "torch.manual_seed": "the global random state of torch",
    "torch.use_deterministic_algorithms": "torch's algorithms",
    "torch.autograd.set_detect_anomaly": "torch's anomaly detection",
    "torch.set_printoptions": "torch's print options",
    "torch.set_flush_denormal": "the treatment of denormal numbers",
    "warnings.simplefilter": "the warning filters",
    "warnings.filterwarnings": "the warning filters",
    "warnings.resetwarnings": "the warning filters",
    "matplotlib.use": "the plotting backend",
    "matplotlib.rc": "the plotting defaults",
    "matplotlib.rcdefaults": "the plotting defaults",
    "matplotlib.pyplot.rc": "the plotting defaults",
    "matplotlib.pyplot.rcdefaults": "the plotting defaults",
    "matplotlib.pyplot.switch_backend": "the plotting backend",
    "matplotlib.style.use": "the plotting style",
    "matplotlib.pyplot.style.use": "the plotting style",
    "matplotlib.pyplot.ion": "the interactive mode",
    "matplotlib.pyplot.ioff": "the interactive mode",
    "matplotlib.pyplot.show": "the user interface (blocks)",
    "matplotlib.pyplot.close": "the user's open figures",
    "matplotlib.pyplot.clf": "the user's current figure",
    "matplotlib.pyplot.cla": "the user's current axes",
    "sys.setrecursionlimit": "the recursion limit",
    "sys.exit": "the process (ends it)", "os._exit": "the process (ends it)",
    "os.chdir": "the working directory", "os.putenv": "the environment",
    "os.remove": "the file system", "os.unlink": "the file system",
    "os.makedirs": "the file system", "os.mkdir": "the file system",
    "os.rename": "the file system", "os.system": "other processes",
    "subprocess.run": "other processes", "subprocess.Popen": "other processes",
    "subprocess.call": "other processes", "shutil.rmtree": "the file system",
    "locale.setlocale": "the locale", "gc.disable": "the garbage collector",
    "logging.basicConfig": "the logging configuration",
    "logging.disable": "the logging configuration",
    "signal.signal": "the signal handlers",
    "numpy.save": "the file system", "numpy.savez": "the file system",
    "numpy.savetxt": "the file system", "torch.save": "the file system",
    "builtins.open": "the file system",
}
SCOPES = {"warnings.catch_warnings": ("warnings.",), "numpy.errstate": ("numpy.seterr",),
          "torch.set_grad_enabled": ("torch.set_grad_enabled",),
          "matplotlib.rc_context": ("matplotlib.",),
          "matplotlib.pyplot.rc_context": ("matplotlib.",),
          "matplotlib.pyplot.ioff": ("matplotlib.pyplot.ioff",),
          "matplotlib.pyplot.ion": ("matplotlib.pyplot.ion",),
          "matplotlib.style.context": ("matplotlib.",),
          "matplotlib.pyplot.style.context": ("matplotlib.",),
          "numpy.printoptions": ("numpy.set_printoptions",)}
WRITES = ("os.environ", "matplotlib.rcParams", "matplotlib.pyplot.rcParams", "sys.path",
          "sys.modules", "torch.backends", "sys.stdout", "sys.stderr", "numpy", "torch",
          "matplotlib", "scipy", "warnings", "math", "builtins", "sys", "os")
MUTATORS = {"update", "setdefault", "pop", "clear", "append", "insert", "extend", "remove",
            "__setitem__", "popitem"}


def effects_of(tree):
    """(node, what) for every reference to a process-wide setting."""
    al = aliases(tree)
    al.setdefault("open", "builtins.open")
    out = []

    def restored(full, stack):
        """Set back in a `finally` clause of an enclosing function."""
        for f in stack:
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for t in ast.walk(f):
                    if isinstance(t, ast.Try):
                        for st in t.finalbody:
                            if any(full in resolve(y, al) for y in ast.walk(st)):
                                return True
        return False

    def walk(x, scopes, stack):
        if isinstance(x, (ast.With, ast.AsyncWith)):
            inner = list(scopes)
            for i in x.items:
                e = i.context_expr
                f = e.func if isinstance(e, ast.Call) else e
                for full in resolve(f, al):
                    inner += SCOPES.get(full, ())
                walk(e, inner, stack)
            for y in x.body:
                walk(y, inner, stack)
            return
        if isinstance(x, (ast.Attribute, ast.Name, ast.Call)):
            for full in resolve(x, al):
                hit = SETTINGS.get(full)
                if hit and isinstance(getattr(x, "ctx", ast.Load()), ast.Load) and not any(
                        full.startswith(p) for p in scopes) and not restored(full, stack):
                    out.append((x, full, hit))
        tgts = []
        if isinstance(x, ast.Assign):
            tgts = x.targets
        elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
            tgts = [x.target]
        elif isinstance(x, ast.Delete):
            tgts = x.targets
        for t in tgts:
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                for full in resolve(t.value, al):
                    if any(full == w or full.startswith(w + ".") for w in WRITES) and not any(
                            full.startswith(p) for p in scopes) and not restored(full, stack):
                        out.append((x, full, "%s (assignment)" % full))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
                and x.func.attr in MUTATORS:
            for full in resolve(x.func.value, al):
                if full in WRITES[:6] and not any(full.startswith(p) for p in scopes) \
                        and not restored(full, stack):
                    out.append((x, full, "%s (%s)" % (full, x.func.attr)))
        st = stack + [x] if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) else stack
        for y in ast.iter_child_nodes(x):
            walk(y, scopes, st)
    walk(tree, [], [])
    return out


CONTROL = '''
import numpy as np
import warnings
from matplotlib import pyplot as plt
import os
def f():
    g = np.seterr
    g(all="ignore")
    warnings.simplefilter("ignore")
    plt.rcParams["x"] = 1
    os.environ["A"] = "b"
    getattr(np, "set_printoptions")(precision=3)
    plt.rcParams.update({})
def ok():
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
    old = np.seterr(all="ignore")
    try:
        pass
    finally:
        np.seterr(**old)
    with plt.rc_context():
        plt.rcParams["x"] = 1
'''


def effects(chk):
    """C51: no effects on process-wide settings."""
    got = effects_of(ast.parse(CONTROL))
    if len(got) != 6 or any(x[0].lineno > 13 for x in got):
        raise RuntimeError("the control of the effect rule fails: %s" % [
            (x[0].lineno, x[1]) for x in got])
    chk.controls += len(got)

    def scan(s, mod, tree):
        nodes = 0
        for q, f in functions(tree):
            s.chk.functions.add(mod + "." + q)
        bad = effects_of(tree)
        for x in ast.walk(tree):
            nodes += isinstance(x, (ast.Attribute, ast.Call, ast.Assign, ast.AugAssign))
        s.chk.obl["structural"] += nodes
        for x, full, what in bad:
            s.violation("effect/" + full, "%s changes %s of the whole process" % (full, what),
                        where(chk, mod, x))

    for mod, tree in sources(chk):
        chk.scenario("effects-%s" % mod, lambda s, m=mod, t=tree: scan(s, m, t))

    # what is done while evaluating (whatever it is called)
    def run(s, p):
        st = p.stub(s) if p.stub else None
        x = p.inputs(s, "")
        old = stubs.token("state")
        o = p.build(s, st)
        for what in ("gradient", "hessian"):
            p.call(s, o, what, x, old)
        for ev in s.it.events:
            if not str(ev[0]).startswith("einsumt"):
                s.violation("event/" + str(ev[0]), "evaluating calls %s" % (ev[0],), ev[-1])
        s.chk.obl["structural"] += 1

    for p in pipes(nested=False):
        if p.name != "stretches":
            chk.scenario("events-%s" % p.name, lambda s, p=p: run(s, p),
                         libs_env={"torch": torchlib.module})


assert alg and AArray and HostObj and Recorder and Top and n and sym and Project and Pipe
assert same_results
