"""Abstract interpreter for the Python subset used by (refactorings of) the repository.

It walks the syntax trees of the package's current source.  Nothing of the package is
imported or executed: every value is an abstract value (absval.py), library calls go to
transfer functions (npm.py, libs.py) and undecided conditions partition the analysis
(trace partitioning; see `explore`)."""

import ast
import functools
import os
import re
import string
import sys
from fractions import Fraction

from . import alg, npm
from .absval import (AArray, AbsRaise, Cond, Dim, HostFunc, HostObj, Recorder, Top, TypeTok,
                     Unsupported, c_all, c_any, c_eq0, c_lt0, c_not, dpoly, to_dim)
from .alg import Poly, topoly
from .objects import (AClass, AFunc, AGen, AObj, Bound, Brk, ClassMixin, Cont, Env, FLOW,
                      GenMixin, Module, OBJECT, Prop, Ret, Super, Wrapped, is_gen,
                      is_notimpl)


_UNSET = object()

def _hierarchy():
    """Builtin exceptions and the direct base of each."""
    out = {}
    for n, c in vars(__import__("builtins")).items():
        if isinstance(c, type) and issubclass(c, BaseException) and c is not BaseException:
            out[n if n not in ("IOError", "EnvironmentError") else n] = (
                "OSError" if n in ("IOError", "EnvironmentError") else c.__base__.__name__)
    out.update({"LinAlgError": "ValueError", "UFuncTypeError": "TypeError",
                "AxisError": "ValueError", "UserError": "Exception",
                "FrozenInstanceError": "AttributeError"})
    return out


EXC = _hierarchy()


def exc_class(e):
    """Class of a raised exception: a class of the program or the name of a builtin."""
    v = e.value
    return v if isinstance(v, AClass) else v.cls if isinstance(v, AObj) else e.etype


def exc_matches(e, t):
    """Whether a handler of type t catches the exception."""
    if isinstance(t, TypeTok):
        return exc_is(e.etype, t.name)
    if isinstance(t, Top):
        raise Unsupported("handler of %r" % (t,))
    if not isinstance(t, AClass):
        raise AbsRaise("TypeError", "catching classes that do not inherit from "
                       "BaseException is not allowed")
    v = e.value
    c = v if isinstance(v, AClass) else v.cls if isinstance(v, AObj) else None
    return isinstance(t, AClass) and c is not None and t in c.mro()


def exc_is(name, target):
    while name:
        if name == target:
            return True
        name = EXC.get(name)
    return False


def assigned_names(node):
    """Names bound in a function body (not descending into nested scopes)."""
    out, glob, nonl = set(), set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    tgt(c.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in (node.body if isinstance(node.body, list) else []):
        walk(s)
    return frozenset(out - glob - nonl), frozenset(glob), frozenset(nonl)


class Project:
    """Parsed sources of the analysed package."""

    def __init__(self, root, package="hyperelastic"):
        self.root, self.package = root, package
        self.trees, self.paths, self.sources = {}, {}, {}
        base = os.path.join(root, package)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    ispkg = rel.endswith(".__init__")
                    name = rel[: -len(".__init__")] if ispkg else rel
                    with open(p, encoding="utf-8") as h:
                        src = h.read()
                    self.sources[name] = src
                    self.trees[name] = ast.parse(src, p)
                    self.paths[name] = (p, ispkg)


class Interp(GenMixin, ClassMixin):
    MAXSTEPS = 40_000_000
    MAXDEPTH = 120

    def __init__(self, project, decisions=(), libs=None):
        self.project = project
        self.modules = {}
        self.decisions = list(decisions)
        self.nforks = 0
        self.trace = []          # (cond, value, site)
        self.known = {}          # cond key -> bool (for un-negated)
        self.eqs = {}            # atom idx -> Poly, from learned equalities
        self.eqlist = []         # other learned equalities (Poly == 0)
        self.abbr = {}           # Poly -> Poly abbreviations
        self.stack = []          # (AFunc, call node)
        self.node = None
        self.visited = set()     # qualnames of analysed functions
        self.events = []         # effects on the outside world
        self.steps = 0
        self.libs = libs or {}
        self.memo_fn = {}
        self.eig = {}
        self.eig_pos = True
        self.writes = []         # (array, site) in program order
        self.log = []
        self.handling = None     # exception being handled
        self.fresh = None        # class being created by a metaclass
        self.formats = []        # (text of a symbolic number, format it is shown with)
        self.newer = []          # (construct, needed version of Python, site)
        npm.CUR = self

    # -- partitioning -----------------------------------------------------------------
    def site(self):
        mod = self.stack[-1][0].module if self.stack else None
        line = getattr(self.node, "lineno", 0)
        fn = self.stack[-1][0].qual if self.stack else "<module>"
        path = mod.path if mod is not None and mod.path else "?"
        return (path, line, fn)

    def learn(self, c, v):
        if not isinstance(c, Cond):
            return
        if c.neg:
            c, v = c.invert(), not v
        if c.key() in self.known:
            return
        self.known[c.key()] = v
        if c.kind == "eq0" and v:
            self.add_eq(c.args[0])
        elif c.kind == "any" and not v:
            for x in c.args:
                self.learn(x, False)
        elif c.kind == "exists" and not v:
            self.learn(c.args[0], False)
        elif c.kind == "arrayeq" and v:
            for p in c.args:
                self.add_eq(p)

    def add_eq(self, p):
        p = alg.subst(topoly(p), self.eqs) if self.eqs else topoly(p)
        if not p.t:
            return
        sol = None
        if len(p.t) == 1:
            (m, c), = p.t.items()
            free = [i for i, e in m if not alg.ATOMS[i].pos]
            if len(free) == 1:
                sol = (free[0], alg.ZERO)
        if sol is None:
            # solve for the newest variable that occurs linearly with a constant/positive
            # monomial coefficient
            for i in sorted(p.atoms(), reverse=True):
                if alg.ATOMS[i].kind != "v":
                    continue
                occ = [(m, c) for m, c in p.t.items() if any(j == i for j, _ in m)]
                if len(occ) != 1:
                    continue
                m, c = occ[0]
                if dict(m)[i] != 1:
                    continue
                rest = tuple(x for x in m if x[0] != i)
                if any(not alg.ATOMS[j].pos for j, _ in rest):
                    continue
                other = Poly({k: v for k, v in p.t.items() if k != m})
                if i in other.atoms(deep=True):
                    continue
                sol = (i, -other / Poly({rest: c}))
                break
        if sol is None:
            self.eqlist.append(p)
            return
        one = {sol[0]: sol[1]}
        self.eqs = {k: alg.subst(v, one) for k, v in self.eqs.items()}
        self.eqs[sol[0]] = sol[1]

    def truth_known(self, c):
        """Decided value of a condition, or None."""
        if not isinstance(c, Cond):
            return bool(c)
        if c.neg:
            r = self.truth_known(c.invert())
            return None if r is None else not r
        if c.key() in self.known:
            return self.known[c.key()]
        if c.kind == "any":
            vals = [self.truth_known(x) for x in c.args]
            if any(v is True for v in vals):
                return True
            if all(v is False for v in vals):
                return False
        if c.kind == "exists":
            r = self.truth_known(c.args[0])
            if r is True:
                return True
        if c.kind in ("eq0", "lt0") and self.eqs:
            p = alg.subst(c.args[0], self.eqs)
            r = (c_eq0 if c.kind == "eq0" else c_lt0)(p)
            if not isinstance(r, Cond):
                return r
            if r.key() != c.key():
                return self.truth_known(r)
        return None

    def decide(self, c):
        if not isinstance(c, Cond):
            return bool(c)
        r = self.truth_known(c)
        if r is not None:
            return r
        if self.nforks < len(self.decisions):
            v = self.decisions[self.nforks]
        else:
            v = True
            self.decisions.append(v)
        self.nforks += 1
        if self.nforks > 40:
            raise Unsupported("too many undecided conditions on one path")
        self.trace.append((c, v, self.site()))
        self.learn(c, v)
        return v

    def on_write(self, arr):
        """Called for every write into array memory."""
        self.writes.append((arr, self.site()))

    def zero(self, p):
        """Zero test under the equalities learned on this path."""
        if alg.is_zero(p):
            return True
        if self.eqs and alg.is_zero(p, self.eqs):
            return True
        return False

    # -- modules -----------------------------------------------------------------------
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.project.trees:
            if "." in name:
                self.load(name.rsplit(".", 1)[0])
                if name in self.modules:
                    return self.modules[name]
            path, ispkg = self.project.paths[name]
            m = Module(name, path)
            m.ns["__name__"] = name
            m.ns["__file__"] = path
            self.modules[name] = m
            if "." in name:
                p, s = name.rsplit(".", 1)
                self.modules[p].ns.setdefault(s, m)
            fr = AFunc(self.project.trees[name], m, None, (), {}, "<module>",
                       name + ".<module>")
            self.stack.append((fr, None))
            saved = self.node
            try:
                env = Env()
                env.vars = m.ns
                self.exec_body(self.project.trees[name].body, env, m)
            finally:
                self.stack.pop()
                self.node = saved
            return m
        lib = self.libs.get(name)
        m = None
        if lib is not None:
            m = self.modules[name] = lib(self) if callable(lib) else lib
            if pylib(name) is None:
                return m
        if name.split(".")[0] == self.project.package:
            raise AbsRaise("ModuleNotFoundError", name)
        src = pylib(name)
        if src is not None:
            if m is None:
                m = self.modules[name] = Module(name, getter=lambda a: stdlib_attr(name, a))
            from . import libs
            m.ns["__name__"] = name
            m.ns.update(libs.PRIMS)
            env = Env()
            env.vars = m.ns
            outer, self.stack = self.stack, [(AFunc(src, m, None, (), {}, "<module>", name
                                                    + ".<module>"), None)]
            try:
                self.exec_body(src.body, env, m)
            finally:
                self.stack = outer
            return m
        if name.split(".")[0] in sys.stdlib_module_names:
            known = stdlib(name)
            if known is None:
                raise AbsRaise("ModuleNotFoundError", "No module named '%s'" % name)
            m = Module(name, getter=lambda a: stdlib_attr(name, a))
        else:
            # not a declared dependency: it may be there or not
            if not self.decide(Cond("opaque", ("import " + name.split(".")[0],))):
                raise AbsRaise("ModuleNotFoundError", "No module named '%s'" % name)
            m = Module(name, getter=lambda a: Top("library %s.%s" % (name, a)))
        self.modules[name] = m
        return m

    def resolve_from(self, module, node):
        name = node.module or ""
        if node.level:
            base = module.name
            ispkg = self.project.paths[module.name][1]
            parts = base.split(".")
            drop = node.level - (1 if ispkg else 0)
            if drop:
                parts = parts[:-drop]
            name = ".".join(parts + ([name] if name else []))
        return name

    # -- statements ----------------------------------------------------------------------
    def exec_body(self, body, env, mod):
        for s in body:
            self.exec(s, env, mod)

    def exec(self, s, env, mod):
        self.node = s
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Unsupported("step budget exhausted")
        getattr(self, "s_" + s.__class__.__name__, self.s_unsupported)(s, env, mod)

    def s_unsupported(self, s, env, mod):
        raise Unsupported("statement %s (line %s)" % (s.__class__.__name__, s.lineno))

    def s_Expr(self, s, env, mod):
        self.ev(s.value, env, mod)

    def s_Pass(self, s, env, mod):
        pass

    def s_Return(self, s, env, mod):
        v = None if s.value is None else self.ev(s.value, env, mod)
        self.node = s
        raise Ret(v)

    def s_Break(self, s, env, mod):
        raise Brk()

    def s_Continue(self, s, env, mod):
        raise Cont()

    def s_Global(self, s, env, mod):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s, env, mod):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                self.bind(a.asname, m, env, mod)
            else:
                top = self.load(a.name.split(".")[0])
                if "." in a.name and not top.path:
                    top.ns[a.name.split(".")[1]] = self.load(".".join(a.name.split(".")[:2]))
                self.bind(a.name.split(".")[0], top, env, mod)

    def s_ImportFrom(self, s, env, mod):
        if s.module == "__future__":
            return
        name = self.resolve_from(mod, s)
        m = self.load(name)
        for a in s.names:
            if a.name == "*":
                names = m.ns.get("__all__")
                if names is None:
                    names = [n for n in m.ns if not n.startswith("_")]
                for n in names:
                    self.bind(n, self.mod_attr(m, n), env, mod)
                continue
            try:
                v = self.mod_attr(m, a.name)
            except AbsRaise:
                if name + "." + a.name in self.project.trees:
                    v = self.load(name + "." + a.name)
                else:
                    raise AbsRaise("ImportError", "cannot import name %s from %s"
                                   % (a.name, name))
            self.bind(a.asname or a.name, v, env, mod)

    def mod_attr(self, m, name):
        if name in m.ns:
            return m.ns[name]
        if m.getter is not None:
            v = m.getter(name)
            if v is not None:
                m.ns[name] = v
                return v
        raise AbsRaise("AttributeError", "module %s has no attribute %s" % (m.name, name))

    def bind(self, name, v, env, mod):
        if name in env.globals_:
            mod.ns[name] = v
        elif name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars or name in e.locals:
                    e.vars[name] = v
                    return
                e = e.parent
        else:
            env.vars[name] = v

    def s_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        self.node = s
        for t in s.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if "__class_qual__" in env.vars and isinstance(s.target, ast.Name):
            try:
                ann = self.ev(s.annotation, env, mod)
            except (AbsRaise, Unsupported):
                ann = Top("annotation")
            env.vars.setdefault("__annotations__", {})[s.target.id] = ann
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            i = self.ev(t.slice, env, mod)
            self.setitem(o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.iterate(v)
            n = len(t.elts)
            if star:
                k = star[0]
                if len(vals) < n - 1:
                    raise AbsRaise("ValueError", "not enough values to unpack")
                tail = n - 1 - k
                parts = vals[:k] + [list(vals[k:len(vals) - tail])] + vals[len(vals) - tail:]
            else:
                if len(vals) != n:
                    raise AbsRaise("ValueError", "cannot unpack %d values into %d names"
                                   % (len(vals), n))
                parts = vals
            for e, x in zip(t.elts, parts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env, mod)
        else:
            raise Unsupported("assignment target %s" % t.__class__.__name__)

    def s_AugAssign(self, s, env, mod):
        t = s.target
        op = s.op.__class__.__name__
        if isinstance(t, ast.Name):
            cur = self.load_name(t, env, mod)
            v = self.ev(s.value, env, mod)
            self.node = s
            self.bind(t.id, self.iop(op, cur, v), env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value, env, mod)
            self.node = s
            self.setattr(o, t.attr, self.iop(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            i = self.ev(t.slice, env, mod)
            cur = self.getitem(o, i)
            v = self.ev(s.value, env, mod)
            self.node = s
            self.setitem(o, i, self.iop(op, cur, v))
        else:
            raise Unsupported("augmented assignment target")

    def iop(self, op, a, b):
        if isinstance(a, AArray):
            return npm.inplace(op, a, b)
        if isinstance(a, dict) and op == "BitOr":
            self.newer.append(("the union of dictionaries", (3, 9), self.site()))
            a.update(b if isinstance(b, dict) else dict(map(tuple, self.iterate(b))))
            return a
        if isinstance(a, list) and op == "Add":
            a.extend(self.iterate(b))
            return a
        if isinstance(a, set) and op in ("BitOr", "BitAnd", "Sub", "BitXor") and isinstance(
                b, (set, frozenset)):
            r = self.binop(op, a, b)
            a.clear()
            a.update(r)
            return a
        if isinstance(a, list) and op == "Mult":
            a[:] = self.binop(op, a, b)
            return a
        if isinstance(a, AObj):
            m, c = a.cls.lookup("__i%s__" % _DUNDER.get(op))
            if c is not None:
                r = self.call(m, [a, b], {})
                if not is_notimpl(r):
                    return r
        return self.binop(op, a, b)

    def s_If(self, s, env, mod):
        c = self.truth(self.ev(s.test, env, mod))
        self.exec_body(s.body if c else s.orelse, env, mod)

    def s_For(self, s, env, mod):
        it = self.iter_host(self.ev(s.iter, env, mod))
        broke = False
        for v in it:
            self.assign(s.target, v, env, mod)
            try:
                self.exec_body(s.body, env, mod)
            except Brk:
                broke = True
                break
            except Cont:
                continue
        if not broke:
            self.exec_body(s.orelse, env, mod)

    def s_While(self, s, env, mod):
        n = 0
        while True:
            self.node = s
            if not self.truth(self.ev(s.test, env, mod)):
                self.exec_body(s.orelse, env, mod)
                return
            n += 1
            if n > 10000:
                raise Unsupported("while loop bound")
            try:
                self.exec_body(s.body, env, mod)
            except Brk:
                return
            except Cont:
                continue

    def s_Assert(self, s, env, mod):
        if not self.truth(self.ev(s.test, env, mod)):
            msg = None if s.msg is None else self.ev(s.msg, env, mod)
            self.node = s
            raise AbsRaise("AssertionError", "assertion fails" if s.msg is None else
                           format_value(msg), new_exc("AssertionError", () if s.msg is None
                                                      else (msg,)))

    def as_raise(self, v):
        """The exception of the analysis for a value which is raised."""
        if isinstance(v, AbsRaise):
            return v
        if isinstance(v, TypeTok) and exc_is(v.name, "BaseException"):
            v = new_exc(v.name, ())
        if isinstance(v, AClass):
            v = self.instantiate(v, [], {})
        if isinstance(v, HostObj) and v.cls == "exception":
            if "raised" in v.attrs:
                return v.attrs["raised"]
            e = AbsRaise(v.attrs["etype"], exc_text(self, v), v)
            v.attrs["raised"] = e
            return e
        if isinstance(v, AObj):
            b = v.cls.exception()
            if b is not None:
                if not hasattr(v, "raised"):
                    v.raised = AbsRaise(b, v.cls.name, v)
                return v.raised
            if v.cls.opaque() is not None:
                raise Unsupported("raise of %r" % (v,))
        if isinstance(v, Top):
            raise Unsupported("raise of %r" % (v,))
        return AbsRaise("TypeError", "exceptions must derive from BaseException")

    def s_Raise(self, s, env, mod):
        if s.exc is None:
            if self.handling is not None:
                raise self.handling
            raise AbsRaise("RuntimeError", "No active exception to reraise")
        e = self.as_raise(self.ev(s.exc, env, mod))
        if s.cause is not None:
            c = self.ev(s.cause, env, mod)
            if c is not None:
                c = exc_value(self.as_raise(c))
            set_exc(exc_value(e), "__cause__", c)
        self.node = s
        if self.handling is not None and self.handling is not e:
            set_exc(exc_value(e), "__context__", exc_value(self.handling))
        raise e

    def handler(self, s, e, env, mod):
        """The handler of a try statement for an exception, with its name bound."""
        for h in s.handlers:
            if h.type is not None:
                ts = self.ev(h.type, env, mod)
                ts = ts if isinstance(ts, tuple) else (ts,)
                if not any(exc_matches(e, t) for t in ts):
                    continue
            if h.name:
                self.bind(h.name, exc_value(e), env, mod)
            return h
        return None

    def s_Try(self, s, env, mod):
        depth = len(self.stack)
        try:
            try:
                self.exec_body(s.body, env, mod)
            except AbsRaise as e:
                del self.stack[depth:]
                h = self.handler(s, e, env, mod)
                if h is None:
                    raise
                prev = self.handling
                self.handling = e
                try:
                    self.exec_body(h.body, env, mod)
                finally:
                    self.handling = prev
                    if h.name and env.vars.get(h.name) is e.value:
                        del env.vars[h.name]        # as Python does
            else:
                self.exec_body(s.orelse, env, mod)
        except (AbsRaise,) + FLOW:
            self.exec_body(s.finalbody, env, mod)
            raise
        else:
            self.exec_body(s.finalbody, env, mod)

    def s_With(self, s, env, mod, k=0):
        if k == len(s.items):
            self.exec_body(s.body, env, mod)
            return
        i = s.items[k]
        v, leave = self.enter(self.ev(i.context_expr, env, mod))
        depth = len(self.stack)
        try:
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env, mod)
            self.s_With(s, env, mod, k + 1)
        except AbsRaise as e:
            del self.stack[depth:]
            if not leave(e):
                raise
        except FLOW:
            leave(None)
            raise
        else:
            leave(None)

    def enter(self, m):
        """Enters a context: its value and the function which leaves it."""
        if isinstance(m, HostObj) and m.cls == "generator context":
            g = m.attrs["gen"]()
            try:
                v = next(g)
            except StopIteration:
                raise AbsRaise("RuntimeError", "generator didn't yield")

            def done(e):
                if e is None:
                    try:
                        next(g)
                    except StopIteration:
                        return False
                    raise AbsRaise("RuntimeError", "generator didn't stop")
                try:
                    g.resume(None, e)
                except StopIteration:
                    return True
                except AbsRaise as e2:
                    if e2 is e:
                        return False
                    raise
                raise AbsRaise("RuntimeError", "generator didn't stop after throw()")
            return v, done
        if isinstance(m, AObj):
            f, c = m.cls.lookup("__enter__")
            x, cx = m.cls.lookup("__exit__")
            if c is None or cx is None:
                if m.cls.opaque() is not None:
                    raise Unsupported("context of %r" % (m,))
                raise AbsRaise("TypeError", "'%s' object does not support the context manager "
                               "protocol" % m.cls.name)
            v = self.call(self.bind_attr(f, m, m.cls), [], {})
            leave = self.bind_attr(x, m, m.cls)
        elif isinstance(m, HostObj) and "__exit__" in m.attrs:
            v = self.call(m.attrs["__enter__"], [], {}) if "__enter__" in m.attrs else m
            leave = m.attrs["__exit__"]
        elif isinstance(m, (HostObj, Top, Recorder)):
            return m, lambda e: False
        else:
            raise AbsRaise("TypeError", "'%s' object does not support the context manager "
                           "protocol" % _tname(m))

        def fn(e):
            if e is None:
                self.call(leave, [None, None, None], {})
                return False
            c = exc_class(e)
            tok = c if isinstance(c, AClass) else self.builtin(c) or TypeTok(
                c, lambda x: False)
            return self.truth(self.call(leave, [tok, exc_value(e), None], {}))
        return v, fn

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            self.delete(t, env, mod)

    def delete(self, t, env, mod):
        if isinstance(t, ast.Name):
            if t.id in env.globals_:
                if mod.ns.pop(t.id, _UNSET) is _UNSET:
                    raise AbsRaise("NameError", "name '%s' is not defined" % t.id)
            elif env.vars.pop(t.id, _UNSET) is _UNSET:
                if t.id in env.nonlocals:
                    raise Unsupported("del of a nonlocal name")
                raise AbsRaise("UnboundLocalError" if env.vars is not mod.ns else "NameError",
                               "name '%s' is not defined" % t.id)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            i = self.ev(t.slice, env, mod)
            if isinstance(o, list):
                i = self.conc_slice(i) if isinstance(i, slice) else self.conc_int(i)
            if isinstance(o, (dict, list)):
                try:
                    del o[i]
                except (KeyError, IndexError) as e:
                    raise AbsRaise(e.__class__.__name__, str(e))
            elif isinstance(o, AObj):
                self.dunder(o, "__delitem__", [i])
            elif isinstance(o, (AArray, tuple, str)):
                raise AbsRaise("TypeError" if not isinstance(o, AArray) else "ValueError",
                               "cannot delete items")
            else:
                raise Unsupported("del item")
        elif isinstance(t, ast.Attribute):
            self.delattr(self.ev(t.value, env, mod), t.attr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e, env, mod)
        else:
            raise Unsupported("del of %s" % t.__class__.__name__)

    def delattr(self, o, name):
        if isinstance(o, AObj):
            self.obj_delattr(o, name)
        elif isinstance(o, (AClass, Module)):
            if o.ns.pop(name, _UNSET) is _UNSET:
                raise AbsRaise("AttributeError", name)
            self.events.append(("%s-attribute" % ("class" if isinstance(o, AClass) else
                                                  "module"), getattr(o, "qual", o.name),
                                name, self.site()))
        elif isinstance(o, AFunc):
            if o.attrs.pop(name, _UNSET) is _UNSET:
                raise AbsRaise("AttributeError", name)
        else:
            raise Unsupported("del attribute")

    def s_FunctionDef(self, s, env, mod):
        f = self.make_func(s, env, mod)
        for d in reversed(s.decorator_list):
            f = self.decorate(self.ev(d, env, mod), f)
        self.bind(s.name, f, env, mod)

    def decorate(self, d, f):
        return self.call(d, [f], {})

    def make_func(self, s, env, mod):
        a = s.args
        defaults = [self.ev(d, env, mod) for d in a.defaults]
        kwd = {k.arg: self.ev(d, env, mod) for k, d in zip(a.kwonlyargs, a.kw_defaults)
               if d is not None}
        name = getattr(s, "name", "<lambda>")
        cls = getattr(env, "vars", {}).get("__class_qual__")
        if cls:
            qual = cls + "." + name
        else:
            outer = self.stack[-1][0].qual if self.stack else mod.name
            if outer.endswith(".<module>"):
                outer = outer[: -len(".<module>")]
            qual = outer + "." + name
        # functions close over enclosing *function* scopes, not class bodies
        cenv = env
        while cenv is not None and "__class_qual__" in cenv.vars:
            cenv = cenv.parent
        if cenv is not None and cenv.vars is mod.ns:
            cenv = None
        return AFunc(s, mod, cenv, defaults, kwd, name, qual)

    def s_ClassDef(self, s, env, mod):
        bases = [self.ev(b.value if isinstance(b, ast.Starred) else b, env, mod)
                 for b in s.bases]
        outer = self.stack[-1][0].qual if self.stack else mod.name
        if outer.endswith(".<module>"):
            outer = outer[: -len(".<module>")]
        qual = outer + "." + s.name
        flat = []
        for b, e in zip(bases, s.bases):
            flat.extend(self.iterate(b) if isinstance(e, ast.Starred) else [b])
        kwds = {}
        for k in s.keywords:
            v = self.ev(k.value, env, mod)
            kwds.update(v if k.arg is None else {k.arg: v})
        cenv = Env(env)
        cenv.vars["__class_qual__"] = qual
        self.exec_body(s.body, cenv, mod)
        ns = dict(cenv.vars)
        ns.pop("__class_qual__")
        self.node = s
        for x in flat:
            if isinstance(x, (HostObj, AObj)) and x.__class__ is HostObj and "classmaker" in \
                    x.attrs:
                c = x.attrs["classmaker"](self, s.name, flat, ns, mod, qual, s)
                break
        else:
            c = self.build_class(s.name, flat, ns, mod, qual, s, kwds)
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env, mod), [v], {})
        self.bind(s.name, v, env, mod)

    def s_Match(self, s, env, mod):
        v = self.ev(s.subject, env, mod)
        for case in s.cases:
            if self.match(case.pattern, v, env, mod) and (
                    case.guard is None or self.truth(self.ev(case.guard, env, mod))):
                self.exec_body(case.body, env, mod)
                return

    def match(self, p, v, env, mod):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.ev(p.value, env, mod)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env, mod):
                return False
            if p.name:
                env.vars[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env, mod) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, list)) or len(v) != len(p.patterns):
                return False
            return all(self.match(q, x, env, mod) for q, x in zip(p.patterns, v))
        raise Unsupported("match pattern")

    # -- expressions ---------------------------------------------------------------------
    def ev(self, e, env, mod):
        m = getattr(self, "e_" + e.__class__.__name__, None)
        if m is None:
            raise Unsupported("expression %s (line %s)" % (e.__class__.__name__, e.lineno))
        return m(e, env, mod)

    def e_Constant(self, e, env, mod):
        v = e.value
        if isinstance(v, float):
            return alg.const(alg.exact(v)) if v == v and abs(v) != float("inf") else \
                alg.app("const", repr(v))
        if isinstance(v, complex):
            raise Unsupported("complex number")
        return v

    def load_name(self, e, env, mod):
        n = e.id
        s = env
        while s is not None:
            if n in s.globals_:
                break
            if n in s.vars:
                return s.vars[n]
            if n in s.locals:
                self.node = e
                if s is env:
                    raise AbsRaise("UnboundLocalError",
                                   "local variable '%s' is not assigned on this path" % n)
                raise AbsRaise("NameError", "free variable '%s' is not assigned" % n)
            s = s.parent
        if n in mod.ns:
            return mod.ns[n]
        b = self.builtin(n)
        if b is not None:
            return b
        self.node = e
        raise AbsRaise("NameError", "name '%s' is not defined" % n)

    def e_Name(self, e, env, mod):
        return self.load_name(e, env, mod)

    def e_Attribute(self, e, env, mod):
        o = self.ev(e.value, env, mod)
        self.node = e
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, env, mod):
        o = self.ev(e.value, env, mod)
        i = self.ev(e.slice, env, mod)
        self.node = e
        return self.getitem(o, i)

    def e_Slice(self, e, env, mod):
        f = lambda x: None if x is None else self.ev(x, env, mod)  # noqa: E731
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, env, mod):
        return tuple(self.elts(e.elts, env, mod))

    def e_List(self, e, env, mod):
        return self.elts(e.elts, env, mod)

    def e_Set(self, e, env, mod):
        return make_set(self.elts(e.elts, env, mod))

    def elts(self, es, env, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env, mod)))
            else:
                out.append(self.ev(x, env, mod))
        return out

    def e_Dict(self, e, env, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.as_mapping(self.ev(v, env, mod)))
            else:
                kk = self.ev(k, env, mod)
                d[keyof(kk, d)] = self.ev(v, env, mod)
        return d

    def as_mapping(self, v):
        if isinstance(v, HostObj) and "mapping" in v.attrs:
            return v.attrs["mapping"]
        if isinstance(v, dict):
            return v
        if isinstance(v, AObj) and v.cls.lookup("keys")[1] is not None:
            return {k: self.getitem(v, k)
                    for k in self.iterate(self.call(self.getattr(v, "keys"), [], {}))}
        if isinstance(v, (Top, Recorder, HostObj)):
            raise Unsupported("** of %r" % (v,))
        raise AbsRaise("TypeError", "'%s' object is not a mapping" % _tname(v))

    def e_BinOp(self, e, env, mod):
        a = self.ev(e.left, env, mod)
        b = self.ev(e.right, env, mod)
        self.node = e
        return self.binop(e.op.__class__.__name__, a, b)

    def e_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        self.node = e
        op = e.op.__class__.__name__
        if op == "Not":
            if isinstance(v, Cond):
                return v.invert()
            return not self.truth(v)
        if isinstance(v, Top):
            return v
        if op == "Invert":
            if isinstance(v, (bool, Cond)):
                return c_not(v)
            if isinstance(v, int):
                return ~v
            return npm.elementwise(c_not, [v], "b")
        if isinstance(v, (AArray,)):
            return npm.elementwise((lambda x: -x) if op == "USub" else (lambda x: x), [v])
        if isinstance(v, Dim):
            v = v.poly
        if isinstance(v, (int, Fraction, Poly)):
            return -v if op == "USub" else v
        return self.dunder(v, "__neg__" if op == "USub" else "__pos__", [])

    def e_BoolOp(self, e, env, mod):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, env, mod)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v if not isinstance(v, Cond) else False
            if not is_and and t:
                return v if not isinstance(v, Cond) else True
        return v

    def e_Compare(self, e, env, mod):
        left = self.ev(e.left, env, mod)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env, mod)
            self.node = e
            c = self.compare(op.__class__.__name__, left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            res = True
            left = right
        return res

    def e_IfExp(self, e, env, mod):
        if self.truth(self.ev(e.test, env, mod)):
            return self.ev(e.body, env, mod)
        return self.ev(e.orelse, env, mod)

    def e_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        while env.comp:
            env = env.parent
        self.bind(e.target.id, v, env, mod)
        return v

    def e_Lambda(self, e, env, mod):
        return self.make_func(e, env, mod)

    def e_JoinedStr(self, e, env, mod):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(str(p.value))
            else:
                out.append(self.e_FormattedValue(p, env, mod))
        return "".join(out)

    def e_FormattedValue(self, e, env, mod):
        spec = "" if e.format_spec is None else self.ev(e.format_spec, env, mod)
        v = self.ev(e.value, env, mod)
        if e.conversion in (114, 97):
            v = repr_value(v)
        elif e.conversion == 115:
            v = format_value(v)
        return format_value(v, spec)

    def e_Starred(self, e, env, mod):
        raise Unsupported("starred expression")

    def e_Await(self, e, env, mod):
        raise Unsupported("await")

    def e_Yield(self, e, env, mod):
        raise Unsupported("yield in this place")

    e_YieldFrom = e_Yield

    def comp(self, gens, env, mod, leaf):
        cenv = Env(env, comp=True)
        src = self.iter_host(self.ev(gens[0].iter, env, mod))
        return self.g_comp(gens, 0, src, cenv, mod, leaf)

    def e_ListComp(self, e, env, mod):
        return list(self.comp(e.generators, env, mod, lambda c: self.ev(e.elt, c, mod)))

    def e_GeneratorExp(self, e, env, mod):
        f = self.stack[-1][0] if self.stack else AFunc(e, mod, None, (), {}, "<genexpr>",
                                                       mod.name + ".<genexpr>")
        return AGen(self, self.comp(e.generators, env, mod, lambda c: self.ev(e.elt, c, mod)),
                    f)

    def e_SetComp(self, e, env, mod):
        return make_set(self.e_ListComp(e, env, mod))

    def e_DictComp(self, e, env, mod):
        out = {}

        def leaf(c):
            k = self.ev(e.key, c, mod)
            out[keyof(k, out)] = self.ev(e.value, c, mod)

        for _ in self.comp(e.generators, env, mod, leaf):
            pass
        return out

    def e_Call(self, e, env, mod):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            s = env
            while s is not None:
                if "__self_obj__" in s.vars:
                    return Super(s.vars["__self_cls__"], s.vars["__self_obj__"])
                s = s.parent
            raise Unsupported("super() outside a method")
        f = self.ev(e.func, env, mod)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env, mod)))
            else:
                args.append(self.ev(a, env, mod))
        for k in e.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                v = self.as_mapping(v)
                for x in v:
                    if not isinstance(x, str):
                        raise AbsRaise("TypeError", "keywords must be strings")
                    if x in kw:
                        raise AbsRaise("TypeError", "multiple values for keyword %s" % x)
                kw.update(v)
            else:
                if k.arg in kw:
                    raise AbsRaise("TypeError", "multiple values for keyword %s" % k.arg)
                kw[k.arg] = v
        self.node = e
        return self.call(f, args, kw, e)

    # -- calls -----------------------------------------------------------------------------
    def call(self, f, args, kw, node=None):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + list(args), kw, node)
        if isinstance(f, AFunc):
            return self.call_func(f, args, kw, node)
        if isinstance(f, HostFunc):
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, AClass):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, TypeTok):
            if f.call is None:
                if f.name in EXC or f.name in ("BaseException",):
                    return new_exc(f.name, tuple(args))
                raise Unsupported("call of type %s" % f.name)
            return f.call(self, list(args), dict(kw))
        if isinstance(f, Recorder):
            f.log.append((f.name, list(args), dict(kw), self.site()))
            r = f.result
            return r(self, args, kw) if callable(r) else Recorder(f.name + "()", f.log)
        if isinstance(f, AObj):
            m, c = f.cls.lookup("__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kw, node)
            raise AbsRaise("TypeError", "%r is not callable" % f)
        if isinstance(f, HostObj) and "__call__" in f.attrs:
            return self.call(f.attrs["__call__"], args, kw, node)
        if isinstance(f, Top):
            for a in list(args) + list(kw.values()):
                self.escape(a, f)
            return Top("call of %s" % f.reason)
        if isinstance(f, Wrapped):
            return self.call(f.fn, args, kw, node)
        raise AbsRaise("TypeError", "%r is not callable" % (f,))

    def escape(self, a, f):
        """A mutable value is handed to unknown code."""

    def call_func(self, f, args, kw, node=None):
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported("call depth")
        a = f.node.args
        env = Env(f.env)
        loc = f.attrs.get("__locals__")
        isl = isinstance(f.node, ast.Lambda)
        if loc is None:
            loc = (frozenset(), frozenset(), frozenset()) if isl else assigned_names(f.node)
            f.attrs["__locals__"] = loc
        params = [p.arg for p in a.posonlyargs + a.args]
        env.locals = loc[0] | frozenset(params)
        env.globals_, env.nonlocals = loc[1], loc[2]
        vals = {}
        args = list(args)
        npar = len(params)
        for p, v in zip(params, args):
            vals[p] = v
        extra = args[npar:]
        if extra and a.vararg is None:
            raise AbsRaise("TypeError", "%s() takes %d positional arguments but %d were given"
                           % (f.name, npar, len(args)))
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(extra)
        kwonly = [p.arg for p in a.kwonlyargs]
        rest = {}
        posonly = {p.arg for p in a.posonlyargs}
        for k, v in kw.items():
            if (k in params and k not in posonly) or k in kwonly:
                if k in vals:
                    raise AbsRaise("TypeError", "%s() got multiple values for argument '%s'"
                                   % (f.name, k))
                vals[k] = v
            else:
                rest[k] = v
        if rest and a.kwarg is None:
            raise AbsRaise("TypeError", "%s() got an unexpected keyword argument '%s'"
                           % (f.name, next(iter(rest))))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = rest
        nd = len(f.defaults)
        for p, d in zip(params[npar - nd:], f.defaults):
            vals.setdefault(p, d)
        for k, d in f.kwdefaults.items():
            vals.setdefault(k, d)
        for p in params + kwonly:
            if p not in vals:
                raise AbsRaise("TypeError", "%s() missing argument '%s'" % (f.name, p))
        env.vars.update(vals)
        if f.cls is not None and params:
            env.vars["__self_obj__"] = vals[params[0]]
            env.vars["__self_cls__"] = f.cls
        if f.module.path:
            self.visited.add(f.qual)
        saved = self.node
        self.stack.append((f, node if node is not None else saved))
        try:
            if isl:
                return self.ev(f.node.body, env, f.module)
            if is_gen(f.node):
                g = AGen(self, None, f)
                g.host = self.g_run(f, env, g)
                return g
            try:
                self.exec_body(f.node.body, env, f.module)
            except Ret as r:
                v = r.v
                if isinstance(v, AArray) and v.site is None:
                    v.site = self.site()
                return v
            return None
        except AbsRaise as e:
            if e.site is None:
                e.site = self.site()
                e.stack = [(s[0].qual, getattr(s[1], "lineno", 0)) for s in self.stack]
            raise
        finally:
            self.stack.pop()
            self.node = saved

    # -- attributes ------------------------------------------------------------------------
    def getattr(self, o, name, default=_UNSET):
        try:
            return self._getattr(o, name)
        except AbsRaise as e:
            if e.etype == "AttributeError" and default is not _UNSET:
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, AObj):
            return self.obj_getattr(o, name)
        if isinstance(o, AClass):
            return self.class_getattr(o, name)
        if isinstance(o, Super):
            return self.super_getattr(o, name)
        if isinstance(o, Module):
            return self.mod_attr(o, name)
        if isinstance(o, AArray):
            return npm.array_attr(self, o, name)
        if isinstance(o, HostObj):
            if name in o.attrs:
                return o.attrs[name]
            if o.getter is not None:
                return o.getter(self, o, name)
            if o.cls == "exception":
                return exc_attr(self, o, name)
            if name == "__class__":
                return self.call(self.builtin("type"), [o], {})
            raise AbsRaise("AttributeError", "%s has no attribute %s" % (o.cls, name))
        if isinstance(o, Recorder):
            if name not in o.sub:
                r = o.result.get(name) if isinstance(o.result, dict) else None
                o.sub[name] = Recorder(o.name + "." + name, o.log, r)
            return o.sub[name]
        if isinstance(o, (Poly, Cond)) or (isinstance(o, (int, Fraction))
                                          and not isinstance(o, bool)):
            return npm.scalar_attr(self, o, name)
        if isinstance(o, bool) and name in npm.BOOL_ATTRS:
            return npm.scalar_attr(self, o, name)
        if isinstance(o, Top):
            return Top(o.reason + "." + name)
        if isinstance(o, (AFunc, HostFunc)):
            if name == "__name__":
                return o.attrs.get(name, o.name)
            if name in o.attrs and not name.startswith("__"):
                return o.attrs[name]
            if name in o.attrs and name in FUNCATTRS:
                return o.attrs[name]
            if name in ("__doc__", "__module__", "__qualname__", "__defaults__",
                        "__kwdefaults__", "__annotations__", "__dict__", "__globals__",
                        "__call__", "__get__"):
                return func_attr(self, o, name)
            if isinstance(o, HostFunc):
                raise Unsupported("attribute %s of %s" % (name, o.name))
            raise AbsRaise("AttributeError", "function has no attribute %s" % name)
        if isinstance(o, Bound):
            if name == "__self__":
                return o.obj
            if name == "__func__":
                return o.fn
            return self.getattr(o.fn, name)
        if isinstance(o, TypeTok):
            if name == "__name__":
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            raise AbsRaise("AttributeError", "type %s has no attribute %s" % (o.name, name))
        if isinstance(o, Prop):
            if name == "setter":
                return HostFunc("property.setter",
                                lambda i, a, k: Prop(o.fget, a[0], o.fdel))
            if name == "getter":
                return HostFunc("property.getter",
                                lambda i, a, k: Prop(a[0], o.fset, o.fdel))
            if name == "deleter":
                return HostFunc("property.deleter",
                                lambda i, a, k: Prop(o.fget, o.fset, a[0]))
            if name in ("fget", "fset", "fdel"):
                return getattr(o, name)
        if isinstance(o, Dim):
            return npm.scalar_attr(self, o.poly, name)
        if isinstance(o, PYTYPES) or hasattr(o, "__next__"):
            if type(o) not in PYTYPES and not hasattr(o, "__next__"):
                m = self.special_attr(o, name)
                if m is not None:
                    return m
            m = getattr(o, name, None)
            if isinstance(o, AGen) and (name not in GENATTRS or (
                    o.kind != "generator" and name not in ("__next__", "__iter__"))):
                m = None
            if name == "__class__":
                return self.call(self.builtin("type"), [o], {})
            if m is None and not hasattr(type(o), name):
                raise AbsRaise("AttributeError", "%s has no attribute %s"
                               % (type(o).__name__, name))
            if callable(m):
                return HostFunc("%s.%s" % (type(o).__name__, name),
                                lambda i, a, k, m=m, o=o, n=name: _pycall(i, o, n, m, a, k))
            return m
        if o is None:
            raise AbsRaise("AttributeError", "'NoneType' object has no attribute '%s'" % name)
        if isinstance(o, npm.DType):
            return npm.dtype_attr(o, name)
        raise Unsupported("attribute %s of %r" % (name, o))

    def special_attr(self, o, name):
        """Attributes of named tuples, deques and dictionaries with defaults."""
        from . import libs
        if isinstance(o, libs.ATuple) and o.cls is not None:
            v, c = o.cls.lookup(name)
            if c is not None:
                return self.bind_attr(v, o, o.cls)
            return o.cls if name == "__class__" else None
        if isinstance(o, libs.ATuple):
            return dict(zip(("hits", "misses", "maxsize", "currsize"), o)).get(name)
        if isinstance(o, libs.AOrdered):
            return libs.ordered_attr(self, o, name)
        if isinstance(o, libs.ADeque):
            return libs.deque_attr(self, o, name)
        if isinstance(o, libs.ADefault):
            if name == "default_factory":
                return o.factory
            if name == "copy":
                raise Unsupported("copy of a defaultdict")
        return None

    def setattr(self, o, name, v):
        if isinstance(o, AObj):
            self.obj_setattr(o, name, v)
            return
        if isinstance(o, AClass):
            o.ns[name] = v
            self.events.append(("class-attribute", o.qual, name, self.site()))
            return
        if isinstance(o, Module):
            o.ns[name] = v
            self.events.append(("module-attribute", o.name, name, self.site()))
            return
        if isinstance(o, HostObj):
            o.attrs[name] = v
            self.events.append(("host-attribute", o.cls, name, self.site()))
            return
        if isinstance(o, (AFunc, HostFunc)):
            o.attrs[name] = v
            return
        if isinstance(o, AArray):
            return npm.array_setattr(self, o, name, v)
        if isinstance(o, (Top, Recorder)):
            return
        if isinstance(o, Super):
            raise Unsupported("attribute of super() assigned")
        raise AbsRaise("AttributeError", "cannot set attribute %s of %r" % (name, o))

    # -- items -------------------------------------------------------------------------------
    def getitem(self, o, i):
        if isinstance(o, AArray):
            return npm.getitem(o, i)
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, slice):
                return o[self.conc_slice(i)]
            i = self.conc_int(i)
            try:
                return o[i]
            except IndexError:
                raise AbsRaise("IndexError", "index %s out of range" % i)
        if isinstance(o, dict):
            j = keyof(i, o)
            if j in o:
                return o[j]
            if getattr(o, "factory", None) is not None:
                v = o[j] = self.call(o.factory, [], {})
                return v
            raise AbsRaise("KeyError", repr_value(i), new_exc("KeyError", (i,)))
        if isinstance(o, Top):
            return Top(o.reason + "[]")
        if isinstance(o, (Poly, int, Cond)):
            return npm.scalar_getitem(o, i)
        if isinstance(o, AObj):
            m, c = o.cls.lookup("__getitem__")
            if c is not None:
                return self.call(m, [o, i], {})
            if o.cls.opaque() is None:
                raise AbsRaise("TypeError", "'%s' object is not subscriptable" % o.cls.name)
        if isinstance(o, AClass):
            m, c = o.lookup("__class_getitem__")
            if c is not None:
                return self.call(m.fn if isinstance(m, Wrapped) else m, [o, i], {})
            if isinstance(o.meta, AClass) and o.meta.lookup("__getitem__")[1] is not None:
                return self.call(o.meta.lookup("__getitem__")[0], [o, i], {})
        if isinstance(o, HostObj) and "__getitem__" in o.attrs:
            return self.call(o.attrs["__getitem__"], [i], {})
        if isinstance(o, Recorder):
            return Recorder(o.name + "[]", o.log)
        if isinstance(o, (TypeTok, AClass)):
            return o
        if o is None:
            raise AbsRaise("TypeError", "'NoneType' object is not subscriptable")
        if isinstance(o, range):
            return o[self.conc_slice(i) if isinstance(i, slice) else self.conc_int(i)]
        if isinstance(o, (type({}.keys()), type({}.values()), type({}.items()), set, frozenset,
                          AFunc, HostFunc, Bound, AObj)) or hasattr(o, "__next__"):
            raise AbsRaise("TypeError", "'%s' object is not subscriptable" % type(o).__name__)
        raise Unsupported("subscript of %r" % (o,))

    def conc_int(self, i):
        if isinstance(i, bool) or isinstance(i, int):
            return int(i)
        if isinstance(i, AArray) and i.dims == ():
            return self.conc_int(i.data[()])
        if isinstance(i, Poly):
            c = i.as_const()
            if isinstance(c, int):
                raise AbsRaise("TypeError", "indices must be integers, not float")
            raise Unsupported("symbolic index %s" % i)
        if i is None or isinstance(i, (str, list, tuple, dict)):
            raise AbsRaise("TypeError", "indices must be integers")
        raise Unsupported("index %r" % (i,))

    def conc_slice(self, s):
        f = lambda x: None if x is None else self.conc_int(x)  # noqa: E731
        return slice(f(s.start), f(s.stop), f(s.step))

    def setitem(self, o, i, v):
        if isinstance(o, AArray):
            return npm.setitem(o, i, v)
        if isinstance(o, list):
            if isinstance(i, slice):
                try:
                    o[self.conc_slice(i)] = self.iterate(v)
                except ValueError as e:
                    raise AbsRaise("ValueError", str(e))
                return
            i = self.conc_int(i)
            try:
                o[i] = v
            except IndexError:
                raise AbsRaise("IndexError", "assignment index out of range")
            return
        if isinstance(o, dict):
            o[keyof(i, o)] = v
            return
        if isinstance(o, AObj):
            m, c = o.cls.lookup("__setitem__")
            if c is not None:
                self.call(m, [o, i, v], {})
                return
            if o.cls.opaque() is not None:
                raise Unsupported("item assignment of %r" % (o,))
        if isinstance(o, (Top, Recorder)):
            return
        if isinstance(o, HostObj) and "__setitem__" in o.attrs:
            self.call(o.attrs["__setitem__"], [i, v], {})
            return
        raise AbsRaise("TypeError", "'%s' object does not support item assignment"
                       % type(o).__name__)

    # -- iteration ---------------------------------------------------------------------------
    def iterate(self, v, lazy=False):
        """The items of an iterable as a list."""
        if isinstance(v, (list, tuple, range, dict, str, set, frozenset)):
            return list(v)
        out = []
        for x in self.iter_host(v):
            out.append(x)
            if len(out) > 100000:
                raise Unsupported("iteration without end")
        return out

    def iter_host(self, v):
        """An iterator of the analysis over an iterable."""
        if isinstance(v, (list, tuple, range, str)) or hasattr(v, "__next__"):
            return iter(v)
        if isinstance(v, (dict, set, frozenset) + DICTVIEWS):
            return self.sized_iter(v)
        if isinstance(v, AArray):
            if not v.dims:
                raise AbsRaise("TypeError", "iteration over a 0-d array")
            if isinstance(v.dims[0], Dim):
                raise Unsupported("iteration over a symbolic axis")
            return (npm.getitem(v, k) for k in range(v.dims[0]))
        if isinstance(v, HostObj) and "__iter__" in v.attrs:
            return self.iter_host(self.call(v.attrs["__iter__"], [], {}))
        if isinstance(v, AObj):
            m, c = v.cls.lookup("__iter__")
            if c is not None:
                if m is None:
                    raise AbsRaise("TypeError", "'%s' object is not iterable" % v.cls.name)
                r = self.call(m, [v], {})
                if isinstance(r, AObj):
                    return self.obj_iter(r)
                if not hasattr(r, "__next__") and not isinstance(r, (Top, HostObj)):
                    raise AbsRaise("TypeError", "iter() returned non-iterator of type '%s'"
                                   % _tname(r))
                return self.iter_host(r)
            if v.cls.lookup("__getitem__")[1] is not None:
                return self.item_iter(v)
            if v.cls.opaque() is not None:
                raise Unsupported("iteration over %r" % (v,))
            raise AbsRaise("TypeError", "'%s' object is not iterable" % v.cls.name)
        if isinstance(v, AClass) and v.lookup("__meta_iter__")[1] is not None:
            return self.iter_host(self.call(v.lookup("__meta_iter__")[0].fn, [v], {}))
        if isinstance(v, AClass) and isinstance(v.meta, AClass):
            m, c = v.meta.lookup("__iter__")
            if c is not None:
                return self.iter_host(self.call(m, [v], {}))
        if v is None or isinstance(v, (int, Poly, Fraction, AFunc, HostFunc, Bound, AClass,
                                       Cond, Dim, Module)):
            raise AbsRaise("TypeError", "'%s' object is not iterable" % _tname(v))
        raise Unsupported("iteration over %r" % (v,))

    def sized_iter(self, v):
        n = len(v)
        for x in list(v):
            if len(v) != n:
                raise AbsRaise("RuntimeError", "%s changed size during iteration"
                               % ("Set" if isinstance(v, (set, frozenset)) else "dictionary"))
            yield x
        if len(v) != n:
            raise AbsRaise("RuntimeError", "changed size during iteration")

    def obj_iter(self, o):
        m, c = o.cls.lookup("__next__")
        if c is None:
            raise AbsRaise("TypeError", "iter() returned non-iterator of type '%s'"
                           % o.cls.name)
        n = 0
        while True:
            depth = len(self.stack)
            try:
                x = self.call(m, [o], {})
            except AbsRaise as e:
                if e.etype != "StopIteration":
                    raise
                del self.stack[depth:]
                return
            n += 1
            if n > 100000:
                raise Unsupported("iteration without end")
            yield x

    def item_iter(self, o):
        for k in range(100000):
            depth = len(self.stack)
            try:
                x = self.getitem(o, k)
            except AbsRaise as e:
                if not exc_is(e.etype, "IndexError"):
                    raise
                del self.stack[depth:]
                return
            yield x
        raise Unsupported("iteration without end")

    # -- operators ---------------------------------------------------------------------------
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Cond):
            return self.decide(v)
        if v is None:
            return False
        if isinstance(v, (list, tuple, dict, str, set, frozenset, range) + DICTVIEWS):
            return len(v) > 0
        if is_notimpl(v):
            return True
        if isinstance(v, HostObj) and "__bool__" in v.attrs:
            return self.truth(self.call(v.attrs["__bool__"], [], {}))
        if isinstance(v, HostObj) and "__len__" in v.attrs:
            return self.truth(self.call(v.attrs["__len__"], [], {}))
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Fraction):
            return v != 0
        if isinstance(v, Poly):
            return not self.decide(c_eq0(v))
        if isinstance(v, AArray):
            if v.data.size == 1 and all(isinstance(d, int) for d in v.dims):
                return self.truth(v.data.ravel()[0])
            raise AbsRaise("ValueError", "truth value of an array with more than one "
                           "element is ambiguous")
        if isinstance(v, Top):
            return self.decide(Cond("opaque", (v.reason,)))
        if isinstance(v, AObj):
            for n in ("__bool__", "__len__"):
                m, _ = v.cls.lookup(n)
                if m is not None:
                    return self.truth(self.call(m, [v], {}))
            return True
        if isinstance(v, Dim):
            return True
        return True

    def binop(self, op, a, b):
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if isinstance(a, Dim):
            a = a.poly
        if isinstance(b, Dim):
            b = b.poly
        n = _DUNDER.get(op)
        for x, y, m in ((a, b, "__%s__"), (b, a, "__r%s__")):
            if isinstance(x, AObj):
                if x is b and isinstance(a, AArray):
                    u, c = x.cls.lookup("__array_ufunc__")
                    if c is None or u is not None:
                        raise Unsupported("array operation with %r" % (x,))
                f, c = x.cls.lookup(m % n)
                if c is not None:
                    r = self.call(f, [x, y], {})
                    if not is_notimpl(r):
                        return r
                elif x.cls.opaque() is not None:
                    return Top("%s of %r" % (op, x))
            elif isinstance(x, HostObj) and x.cls != "exception":
                if m % n in x.attrs:
                    return self.call(x.attrs[m % n], [y], {})
                if "binop" in x.attrs:
                    return x.attrs["binop"](self, op, a, b)
        if op == "BitOr" and (isinstance(a, (TypeTok, AClass)) or isinstance(
                b, (TypeTok, AClass))):
            self.newer.append(("the union of types", (3, 10), self.site()))
            return (a if isinstance(a, tuple) else (a,)) + (b if isinstance(b, tuple) else (b,))
        seq = (list, tuple, str)
        if isinstance(a, seq) or isinstance(b, seq):
            if op == "Add" and (type(a) is type(b) or isinstance(a, tuple) and isinstance(
                    b, tuple)):
                return tuple(a) + tuple(b) if isinstance(a, tuple) else a + b
            if op == "Mult":
                if isinstance(a, seq) and isinstance(b, int):
                    return a * b
                if isinstance(b, seq) and isinstance(a, int):
                    return a * b
            if op == "Mod" and isinstance(a, str):
                return format_percent(a, b)
            if not (isinstance(a, AArray) or isinstance(b, AArray)):
                if isinstance(a, Poly) or isinstance(b, Poly):
                    if isinstance(a, str) or isinstance(b, str) or not (
                            self.is_npscalar(a) or self.is_npscalar(b)):
                        raise AbsRaise("TypeError", "unsupported operand types for %s" % op)
                else:
                    raise AbsRaise("TypeError", "unsupported operand types for %s: %s, %s"
                                   % (op, type(a).__name__, type(b).__name__))
        sets = (set, frozenset, type({}.keys()), type({}.items()))
        if isinstance(a, sets) and isinstance(b, sets):
            f = {"BitOr": "__or__", "BitAnd": "__and__", "Sub": "__sub__",
                 "BitXor": "__xor__"}.get(op)
            if f is None:
                raise AbsRaise("TypeError", "unsupported operand types for %s: %s and %s"
                               % (op, _tname(a), _tname(b)))
            return getattr(a, f)(b)
        if isinstance(a, dict) and isinstance(b, dict) and op == "BitOr":
            self.newer.append(("the union of dictionaries", (3, 9), self.site()))
            return {**a, **b}
        if a is None or b is None or isinstance(a, dict) or isinstance(b, dict):
            raise AbsRaise("TypeError", "unsupported operand types for %s: %s and %s"
                           % (op, _tname(a), _tname(b)))
        bad = (AFunc, Module, AClass, AObj, Bound, HostFunc, AGen) + sets + DICTVIEWS
        if isinstance(a, bad) or isinstance(b, bad):
            raise AbsRaise("TypeError", "unsupported operand types for %s" % op)
        return npm.binop(op, a, b)

    def is_npscalar(self, a):
        return isinstance(a, Poly) and a.as_const() is None

    def dunder(self, o, name, args):
        if isinstance(o, AObj):
            m, c = o.cls.lookup(name)
            if c is not None and m is not None:
                return self.call(m, [o] + args, {})
            if o.cls.opaque() is not None:
                raise Unsupported("%s of %r" % (name, o))
        if isinstance(o, HostObj) and name in o.attrs:
            return self.call(o.attrs[name], args, {})
        raise AbsRaise("TypeError", "bad operand for %s: %s" % (name, _tname(o)))

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            if isinstance(a, (int, str, bool)) and isinstance(b, (int, str, bool)):
                r = a == b and type(a) is type(b)
            elif isinstance(a, Dim) or isinstance(b, Dim):
                r = a is b
            elif isinstance(a, npm.DType) and isinstance(b, npm.DType):
                r = a == b
            elif isinstance(a, Bound) and isinstance(b, Bound):
                r = False
            elif isinstance(a, tuple) and isinstance(b, tuple) and not a and not b:
                r = True
            else:
                r = a is b
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            if isinstance(b, (dict, set, frozenset, type({}.keys()))):
                r = keyof(a, b) in b
                if not r and not isinstance(a, (str, int)) and not _number(a):
                    r = any(self.truth(self.compare("Eq", x, a)) for x in b)
            elif isinstance(b, str):
                if not isinstance(a, str):
                    raise AbsRaise("TypeError", "'in <string>' requires string as left operand")
                r = a in b
            elif isinstance(b, AObj) and b.cls.lookup("__contains__")[1] is not None:
                r = self.truth(self.call(b.cls.lookup("__contains__")[0], [b, a], {}))
            elif isinstance(b, AClass) and b.lookup("__meta_contains__")[1] is not None:
                r = self.truth(self.call(b.lookup("__meta_contains__")[0].fn, [b, a], {}))
            elif isinstance(b, HostObj) and "__contains__" in b.attrs:
                r = self.truth(self.call(b.attrs["__contains__"], [a], {}))
            elif isinstance(b, (AArray,)):
                r = c_any([self.compare("Eq", a, x) for x in b.data.ravel()])
            else:
                r = False
                for x in self.iter_host(b):
                    if x is a or self.truth(self.compare("Eq", x, a)):
                        r = True
                        break
            return r if op == "In" else c_not(r)
        if isinstance(a, Top) or isinstance(b, Top):
            t = a if isinstance(a, Top) else b
            return Cond("opaque", ("cmp %s %s" % (op, t.reason),))
        if isinstance(a, Dim):
            a = a.poly
        if isinstance(b, Dim):
            b = b.poly
        for x in (a, b):
            if isinstance(x, HostObj) and "compare" in x.attrs:
                return x.attrs["compare"](op, a, b)
        if isinstance(a, AArray) or isinstance(b, AArray):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                arr = a if isinstance(a, AArray) else b
                return npm.elementwise(lambda x: op == "NotEq", [arr], "b")
            return npm.compare(op, a, b)
        num = (Poly, int, Fraction)
        if isinstance(a, num) and isinstance(b, num):
            return npm.cmp_scalar(op, a, b)
        if isinstance(a, (Cond,)) or isinstance(b, Cond):
            if op in ("Eq", "NotEq") and isinstance(a, (bool, Cond)) \
                    and isinstance(b, (bool, Cond)):
                if isinstance(a, bool):
                    r = b if a else c_not(b)
                elif isinstance(b, bool):
                    r = a if b else c_not(a)
                else:
                    r = self.decide(a) == self.decide(b)
                return r if op == "Eq" else c_not(r)
            a = self.decide(a) if isinstance(a, Cond) else a
            b = self.decide(b) if isinstance(b, Cond) else b
            return self.compare(op, a, b)
        if isinstance(a, AObj) or isinstance(b, AObj):
            for x, y, n in ((a, b, _CMP[op][0]), (b, a, _CMP[op][1])):
                if not isinstance(x, AObj):
                    continue
                m, c = x.cls.lookup(n)
                if c is not None and m is not None:
                    r = self.call(m, [x, y], {})
                    if not is_notimpl(r):
                        return r
                elif n == "__ne__":
                    m, c = x.cls.lookup("__eq__")
                    if c is not None:
                        r = self.call(m, [x, y], {})
                        if not is_notimpl(r):
                            return c_not(r if isinstance(r, Cond) else self.truth(r))
                elif x.cls.opaque() is not None:
                    return Cond("opaque", ("cmp %s %r" % (op, x),))
            if op in ("Eq", "NotEq"):
                return (a is b) == (op == "Eq")
            raise AbsRaise("TypeError", "'%s' not supported between %s and %s"
                           % (op, _tname(a), _tname(b)))
        if isinstance(a, npm.DType) or isinstance(b, npm.DType) or (
                isinstance(a, TypeTok) and isinstance(b, TypeTok)):
            return npm.cmp_dtype(op, a, b)
        if op in ("Eq", "NotEq"):
            if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and \
                    isinstance(b, list):
                if len(a) != len(b):
                    r = False
                else:
                    r = c_all([x is y or self._eqtruth(x, y) for x, y in zip(a, b)])
            else:
                if isinstance(a, dict) and isinstance(b, dict):
                    r = a is b or (list(a.keys() ^ b.keys()) == [] and self.truth(c_all(
                        [self._eqtruth(a[q], b[q]) for q in a])))
                else:
                    r = a is b or (isinstance(a, EQTYPES) and isinstance(b, EQTYPES)
                                   and a == b)
                if isinstance(a, Bound) and isinstance(b, Bound):
                    r = a == b
            return r if op == "Eq" else c_not(r)
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(
                b, list):
            for x, y in zip(a, b):
                if x is y or self.truth(self.compare("Eq", x, y)):
                    continue
                return self.compare(op, x, y)
            return {"Lt": len(a) < len(b), "Gt": len(a) > len(b), "LtE": len(a) <= len(b),
                    "GtE": len(a) >= len(b)}[op]
        if isinstance(a, (str, set, frozenset)) and (type(a) is type(b) or not isinstance(
                a, str) and isinstance(b, (set, frozenset))):
            return {"Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[op]
        raise AbsRaise("TypeError", "'%s' not supported between %s and %s"
                       % (op, _tname(a), _tname(b)))

    def _eqtruth(self, x, y):
        c = self.compare("Eq", x, y)
        return c if isinstance(c, (bool, Cond)) else self.truth(c)

    # -- builtins ----------------------------------------------------------------------------
    def builtin(self, n):
        from . import libs
        return libs.builtin(n)


def _tname(x):
    if x is None:
        return "NoneType"
    if isinstance(x, AGen):
        return x.kind
    if isinstance(x, (AFunc, Bound)):
        return "function"
    if isinstance(x, AClass):
        return "type"
    if isinstance(x, HostObj):
        return x.cls
    if isinstance(x, AArray):
        return "ndarray"
    if isinstance(x, Poly):
        return "float"
    if isinstance(x, AObj):
        return x.cls.name
    return type(x).__name__


_DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow",
           "MatMult": "matmul", "FloorDiv": "floordiv", "Mod": "mod", "BitOr": "or",
           "BitAnd": "and", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}


_CMP = {"Eq": ("__eq__", "__eq__"), "NotEq": ("__ne__", "__ne__"),
        "Lt": ("__lt__", "__gt__"), "Gt": ("__gt__", "__lt__"),
        "LtE": ("__le__", "__ge__"), "GtE": ("__ge__", "__le__")}
DICTVIEWS = (type({}.keys()), type({}.values()), type({}.items()))
EQTYPES = (str, set, frozenset, bytes, type({}.keys()), type({}.items()), range, slice)
PYTYPES = (list, dict, tuple, str, set, frozenset, slice, range, bytes) + DICTVIEWS
GENATTRS = ("send", "throw", "close", "__next__", "__iter__")
FUNCATTRS = ("__doc__", "__wrapped__", "__module__", "__qualname__", "__annotations__",
             "__defaults__", "__kwdefaults__", "__signature__", "__isabstractmethod__")


def hashable(k):
    """Raises where Python cannot use the value as a key."""
    if isinstance(k, (list, dict, set, AArray, slice)):
        raise AbsRaise("TypeError", "unhashable type: '%s'" % _tname(k))
    if isinstance(k, tuple) and type(k) is tuple:
        return tuple(hashable(x) for x in k)
    if isinstance(k, tuple):
        for x in k:
            hashable(x)
    if isinstance(k, Cond):
        return npm.CUR.decide(k)
    if isinstance(k, Poly):
        c = k.as_const()
        if c is not None and c == int(c):
            return int(c)
    return k


def _symbolic(k):
    return isinstance(k, Poly) and k.as_const() is None \
        or isinstance(k, tuple) and any(map(_symbolic, k))


def _number(k):
    return isinstance(k, (Poly, int, float, Fraction)) or isinstance(k, tuple)


def keyof(k, d):
    """The key of the dictionary (or set) which is equal to the value, or the value: the
    equality of symbolic numbers partitions the trace."""
    k = hashable(k)
    if k in d or not d or not _number(k):
        return k
    sym = _symbolic(k)
    todo = [x for x in d if _number(x) and (sym or _symbolic(x))]
    if len(todo) > 24:
        raise Unsupported("lookup of a symbolic number among many")
    for x in todo:
        if npm.CUR.truth(npm.CUR.compare("Eq", x, k)):
            return x
    return k


def make_set(xs):
    out = {}
    for x in xs:
        out[keyof(x, out)] = None
    return set(out)


def func_attr(it, o, name):
    if name == "__call__":
        return o
    if isinstance(o, HostFunc):
        if name == "__qualname__":
            return o.name
        raise Unsupported("attribute %s of %s" % (name, o.name))
    if name == "__doc__":
        return ast.get_docstring(o.node, False) if hasattr(o.node, "name") else None
    if name == "__module__":
        return o.module.name
    if name == "__qualname__":
        return o.qual
    if name == "__defaults__":
        return tuple(o.defaults) or None
    if name == "__kwdefaults__":
        return dict(o.kwdefaults) or None
    if name == "__dict__":
        return {k: v for k, v in o.attrs.items() if k not in ("__locals__",)}
    if name == "__globals__":
        return o.module.ns
    if name == "__get__":
        return HostFunc("__get__", lambda i, a, k: o if a[0] is None else Bound(a[0], o))
    raise Unsupported("attribute %s of a function" % name)


# -- exceptions as values -------------------------------------------------------------------


def new_exc(etype, args):
    return HostObj("exception", {"etype": etype, "args": tuple(args)})


def exc_value(e):
    """The exception object the program sees for a raised exception."""
    if not isinstance(e.value, (AObj, HostObj)):
        e.value = new_exc(e.etype, (e.msg,) if e.msg else ())
    if isinstance(e.value, HostObj):
        e.value.attrs["raised"] = e
    return e.value


def set_exc(v, name, x):
    v.attrs[name] = x


def exc_attr(it, o, name):
    if name in ("__cause__", "__context__", "__traceback__"):
        return None
    if name == "__suppress_context__":
        return "__cause__" in o.attrs
    if name == "with_traceback":
        return HostFunc(name, lambda i, a, k: o)
    if name == "add_note":
        return HostFunc(name, lambda i, a, k: o.attrs.setdefault("__notes__", []).append(a[0]))
    if name == "__class__":
        return it.call(it.builtin("type"), [o], {})
    if name == "value" and o.attrs["etype"] == "StopIteration":
        return o.attrs["args"][0] if o.attrs["args"] else None
    if name == "name" and o.attrs["etype"] in ("NameError", "AttributeError", "ImportError"):
        return Top("name of the exception")
    if name in ("errno", "strerror", "filename", "code", "name", "obj"):
        return Top("attribute of the exception")
    raise AbsRaise("AttributeError", "'%s' object has no attribute '%s'"
                   % (o.attrs["etype"], name))


def exc_text(it, o, plain=False):
    """str() of an exception."""
    if isinstance(o, AObj) and not plain:
        m, c = o.cls.lookup("__str__")
        if c is not None:
            return it.call(m, [o], {})
        m, c = o.cls.lookup("__repr__")
        if c is not None and not o.attrs.get("args"):
            pass
    args = o.attrs.get("args", ())
    if not args:
        return ""
    if len(args) == 1:
        if (o.attrs.get("etype") if isinstance(o, HostObj) else o.cls.exception()) \
                == "KeyError":
            return repr_value(args[0])
        return format_value(args[0])
    return repr_value(tuple(args))


# -- library modules ------------------------------------------------------------------------

PYLIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "pylib")


@functools.lru_cache(maxsize=None)
def pylib(name):
    """Model of a library module which is written in Python, parsed."""
    p = os.path.join(PYLIB, name.replace(".", "_") + ".py")
    if not os.path.exists(p):
        return None
    with open(p, encoding="utf-8") as f:
        return ast.parse(f.read(), p)


@functools.lru_cache(maxsize=None)
def stdlib(name):
    """Names of a module of the standard library."""
    import importlib
    if name in ("this", "antigravity", "idlelib", "turtle", "__main__"):
        return frozenset()
    try:
        return frozenset(dir(importlib.import_module(name)))
    except ModuleNotFoundError as e:
        return None if e.name == name else frozenset()
    except Exception:  # noqa: BLE001
        return frozenset()


def stdlib_attr(mod, name):
    known = stdlib(mod)
    if known and name not in known:
        return None
    return Top("library %s.%s" % (mod, name))


def format_value(v, spec=""):
    """Text of a value: texts and integers as they are, symbolic numbers in braces."""
    if isinstance(v, AArray) and v.data.size == 1 and not v.dims:
        v = v.data.reshape(-1)[0]
    if isinstance(v, AObj):
        it = npm.CUR
        m, c = v.cls.lookup("__format__")
        if c is not None:
            return it.call(m, [v, spec], {})
        m, c = v.cls.lookup("__str__")
        if c is not None:
            r = it.call(m, [v], {})
        elif v.cls.exception():
            r = exc_text(it, v)
        else:
            r = repr_value(v)
        if spec:
            raise AbsRaise("TypeError", "unsupported format string passed to %s.__format__"
                           % v.cls.name)
        return r
    if isinstance(v, HostObj) and v.cls == "exception":
        return exc_text(npm.CUR, v)
    if isinstance(v, str):
        if spec and spec[-1] in "bcdeEfFgGnoxX%":
            raise AbsRaise("ValueError", "Unknown format code '%s' for object of type 'str'"
                           % spec[-1])
        return _format(v, spec)
    if isinstance(v, int) and spec:
        return _format(v, spec)
    if isinstance(v, (type(None), list, tuple, dict, set)) and spec:
        raise AbsRaise("TypeError", "unsupported format string passed to %s.__format__"
                       % _tname(v))
    if isinstance(v, Poly):
        c = v.as_const()
        if c is not None:
            if spec[-1:] == "d":
                if c.denominator == 1:
                    return _format(int(c), spec)
            return _format(float(c), spec)
        return number_text(v, spec)
    return str(v) if isinstance(v, int) or v is None else repr_value(v)


def number_text(v, spec):
    """Text of a number which is not known; its format is noted."""
    t = str(v)
    npm.CUR.formats.append((t, spec))
    return "{%s}" % t


def repr_value(v):
    """repr() of a value."""
    if isinstance(v, (str, bytes, bool, int, range)) or v is None:
        return repr(v)
    if isinstance(v, Poly):
        return format_value(v)
    if isinstance(v, list):
        return "[%s]" % ", ".join(map(repr_value, v))
    if isinstance(v, tuple):
        return "(%s%s)" % (", ".join(map(repr_value, v)), "," if len(v) == 1 else "")
    if isinstance(v, dict):
        return "{%s}" % ", ".join("%s: %s" % (repr_value(a), repr_value(b))
                                  for a, b in v.items())
    if isinstance(v, (set, frozenset)):
        if not v:
            return "set()" if isinstance(v, set) else "frozenset()"
        t = "{%s}" % ", ".join(map(repr_value, v))
        return t if isinstance(v, set) else "frozenset(%s)" % t
    if isinstance(v, AObj):
        m, c = v.cls.lookup("__repr__")
        if c is not None:
            return npm.CUR.call(m, [v], {})
        if v.cls.exception():
            return "%s(%s)" % (v.cls.name, ", ".join(map(repr_value, v.attrs.get("args", ()))))
        return "<%s object>" % v.cls.qual
    if isinstance(v, HostObj) and v.cls == "exception":
        return "%s(%s)" % (v.attrs["etype"], ", ".join(map(repr_value, v.attrs["args"])))
    if isinstance(v, HostObj) and "__repr__" in v.attrs:
        return npm.CUR.call(v.attrs["__repr__"], [], {})
    if isinstance(v, TypeTok):
        return "<class '%s'>" % v.name
    return "{..}"


def _format(v, spec):
    try:
        return format(v, spec)
    except ValueError as e:
        raise AbsRaise("ValueError", str(e))


def format_percent(o, args):
    args = list(args) if isinstance(args, tuple) else [args]
    d = args[0] if args and isinstance(args[0], dict) else None

    def one(m):
        if m.group(5) == "%":
            return "%"
        if m.group(1) is not None:
            if d is None:
                raise AbsRaise("TypeError", "format requires a mapping")
            v = d[m.group(1)]
        elif not args:
            raise AbsRaise("TypeError", "not enough arguments for format string")
        else:
            v = args.pop(0)
        kind, flags, width = m.group(5), m.group(2), m.group(3) or ""
        if width == "*" or m.group(4) == ".*":
            raise Unsupported("width given as an argument")
        if kind in "rsa":
            t = repr_value(v) if kind in "ra" else format_value(v)
            if m.group(4):
                t = t[:int(m.group(4)[1:] or 0)]
            n = int(width or 0)
            return t.ljust(n) if "-" in flags else t.rjust(n)
        if isinstance(v, AArray) and v.data.size == 1:
            v = v.data.reshape(-1)[0]
        if isinstance(v, (Cond, Top)):
            return "{..}"
        if not isinstance(v, (int, Poly)):
            raise AbsRaise("TypeError", "must be real number, not %s" % _tname(v))
        c = v if isinstance(v, int) else v.as_const()
        if c is None:
            return number_text(v, (m.group(4) or "") + kind)
        spec = "%" + flags + width + (m.group(4) or "") + kind
        c = int(c) if kind in "dioxXc" else float(c)
        return spec % c

    r = re.sub(r"%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(\.\d*|\.\*)?[hlL]?([a-zA-Z%])", one, o)
    if args and d is None:
        raise AbsRaise("TypeError", "not all arguments converted during string formatting")
    return r


def format_method(it, o, a, k):
    out, n = [], 0
    try:
        parts = list(string.Formatter().parse(o))
    except ValueError as e:
        raise AbsRaise("ValueError", str(e))
    for text, field, spec, conv in parts:
        out.append(text)
        if field is None:
            continue
        first = re.split(r"[.\[]", field)[0]
        if first == "" or first.isdigit():
            j, n = (n, n + 1) if first == "" else (int(first), n)
            if j >= len(a):
                raise AbsRaise("IndexError", "Replacement index %d out of range" % j)
            v = a[j]
        else:
            if first not in k:
                raise AbsRaise("KeyError", first)
            v = k[first]
        for q in re.findall(r"\.(\w+)|\[(\w+)\]", field[len(first):]):
            v = it.getattr(v, q[0]) if q[0] else it.getitem(
                v, int(q[1]) if q[1].isdigit() else q[1])
        if "{" in spec:
            spec = format_method(it, spec, a[n:], k)
            n += 1
        out.append(format_value(repr_value(v) if conv in ("r", "a") else v, spec))
    return "".join(out)


def _pycall(i, o, n, m, a, k):
    if n == "format" and isinstance(o, str):
        return format_method(i, o, a, k)
    if n == "join" and isinstance(o, str):
        xs = i.iterate(a[0])
        for j, x in enumerate(xs):
            if isinstance(x, Top):
                return x
            if not isinstance(x, str):
                raise AbsRaise("TypeError", "sequence item %d: expected str instance, %s found"
                               % (j, _tname(x)))
        return o.join(xs)
    if n == "update" and isinstance(o, dict):
        if a:
            d = a[0]
            if not isinstance(d, dict):
                d = i.as_mapping(d) if isinstance(d, (HostObj, AObj)) and (
                    isinstance(d, HostObj) or d.cls.lookup("keys")[1] is not None) else {
                    hashable(q[0]): q[1] for q in map(i.iterate, i.iterate(d))}
            o.update(d)
        o.update(k)
        return None
    if n == "extend" and a:
        a = [i.iterate(a[0])]
    if isinstance(o, (set, frozenset)) and n in (
            "update", "union", "intersection", "difference", "issubset", "issuperset",
            "isdisjoint", "symmetric_difference", "intersection_update", "difference_update",
            "symmetric_difference_update"):
        a = [make_set(i.iterate(x)) for x in a]
    if isinstance(o, (dict, set)) and n in ("get", "pop", "setdefault", "add", "discard",
                                            "remove", "__getitem__", "__contains__") and a:
        a = [keyof(a[0], o)] + list(a[1:])
    if isinstance(o, AGen) or hasattr(o, "__next__"):
        try:
            return m(*a, **k)
        except StopIteration as e:
            raise AbsRaise("StopIteration", "", new_exc("StopIteration", () if e.value is None
                                                        else (e.value,)))
    if isinstance(o, PYTYPES) and n in ("__getitem__", "__len__", "__contains__", "__eq__",
                                        "__setitem__", "__iter__"):
        if n == "__getitem__":
            return i.getitem(o, a[0])
        if n == "__setitem__":
            return i.setitem(o, a[0], a[1])
        if n == "__contains__":
            return i.compare("In", a[0], o)
        if n == "__eq__":
            return i.compare("Eq", o, a[0])
    if n in ("index", "count", "remove") and isinstance(o, (list, tuple)):
        hits = [j for j, x in enumerate(o) if x is a[0] or i.truth(i.compare("Eq", x, a[0]))]
        if n == "count":
            return len(hits)
        if not hits:
            raise AbsRaise("ValueError", "not in list")
        if n == "index":
            return hits[0]
        del o[hits[0]]
        return None
    if n == "pop" and isinstance(o, list) and a:
        a = [i.conc_int(a[0])]
    if n == "sort":
        from . import libs
        o[:] = libs.sort(i, list(o), k)
        return None
    if n == "index" and isinstance(o, str) or isinstance(o, (str, bytes)):
        if any(isinstance(x, Top) for x in a):
            return Top("%s.%s" % (type(o).__name__, n))
    try:
        return m(*a, **k)
    except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
        raise AbsRaise(e.__class__.__name__, str(e))


# -- path exploration ---------------------------------------------------------------------------


class Path:
    def __init__(self, interp, value=None, error=None, unsupported=None):
        self.interp, self.value, self.error = interp, value, error
        self.unsupported = unsupported

    def where(self):
        return ["%s:%d (%s): %s -> %s" % (s[0], s[1], s[2], c, v)
                for c, v, s in self.interp.trace]


def explore(make, entry, maxpaths=600):
    """Run the abstract interpretation of `entry(interp)` for every combination of
    undecided conditions it meets.  Yields a Path per partition."""
    todo = [[]]
    n = 0
    while todo:
        dec = todo.pop()
        it = make(dec)
        n += 1
        if n > maxpaths:
            yield Path(it, unsupported="more than %d partitions" % maxpaths)
            return
        try:
            p = Path(it, value=entry(it))
        except AbsRaise as e:
            p = Path(it, error=e)
        except Unsupported as e:
            p = Path(it, unsupported="%s at %s:%d (%s)" % ((e,) + it.site()))
        for k in range(len(dec), it.nforks):
            todo.append(it.decisions[:k] + [False])
        yield p


assert dpoly and to_dim and OBJECT
