"""Algebraic normal forms: the value domain of the abstract interpreter.

An element is a generalised polynomial  sum_k  q_k * prod_a  atom_a ** e_ak  with exact
rational coefficients; exponents are integers, rationals or (for symbolic material
exponents) again such elements.  Atoms are interned: plain variables, primes (for roots of
rational numbers), power bases (a sum that is raised to a negative/fractional exponent),
applications of uninterpreted functions and abbreviations (named sub-expressions).

Equality of two elements is decided syntactically: denominators are cleared, power bases
are grouped by exponent class modulo 1 and expanded, abbreviations are unfolded.  There is
no search and no solver.
"""

from fractions import Fraction
from math import floor

__all__ = ["Atom", "Poly", "var", "const", "app", "abbreviation", "is_zero", "subst",
           "diff", "ZERO", "ONE", "topoly", "fresh_unknown", "has_unknown"]


class Atom:
    __slots__ = ("idx", "name", "kind", "pos", "payload", "unknown", "isint", "derive")

    def __init__(self, idx, name, kind, pos, payload):
        self.idx, self.name, self.kind, self.pos = idx, name, kind, pos
        self.payload = payload
        self.unknown = False
        self.isint = False
        self.derive = None

    def __repr__(self):
        return self.name


ATOMS = []          # index -> Atom
_INTERN = {}        # key -> Atom
class TooBig(Exception):
    """An exact expansion exceeds the term budget."""


BUDGET = [None]     # remaining term products, or None
POSITIVE = set()    # multi-term bases that are known to be positive


def _new(key, name, kind, pos, payload):
    a = _INTERN.get(key)
    if a is None:
        a = Atom(len(ATOMS), name, kind, pos, payload)
        ATOMS.append(a)
        _INTERN[key] = a
    return a


def _num(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


def _eadd(a, b):
    """Add two exponents."""
    r = a + b
    if isinstance(r, Poly):
        c = r.as_const()
        return r if c is None else c
    return _num(r)


def _emul(a, b):
    r = a * b
    if isinstance(r, Poly):
        c = r.as_const()
        return r if c is None else c
    return _num(r)


def _mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    out = []
    i = j = 0
    lm, ln = len(m), len(n)
    while i < lm and j < ln:
        a, b = m[i], n[j]
        if a[0] < b[0]:
            out.append(a)
            i += 1
        elif b[0] < a[0]:
            out.append(b)
            j += 1
        else:
            e = _eadd(a[1], b[1])
            if e.__class__ is Poly or e != 0:
                out.append((a[0], e))
            i += 1
            j += 1
    if i < lm:
        out.extend(m[i:])
    if j < ln:
        out.extend(n[j:])
    return tuple(out)


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    # -- basics ---------------------------------------------------------------------
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, other):
        if isinstance(other, (int, Fraction)):
            other = const(other)
        if not isinstance(other, Poly):
            return NotImplemented
        return self.t == other.t

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def as_const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def is_var(self):
        """The single atom this element consists of, or None."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return ATOMS[m[0][0]]
        return None

    def atoms(self, deep=False, _seen=None):
        seen = set() if _seen is None else _seen
        for m in self.t:
            for i, e in m:
                if i not in seen:
                    seen.add(i)
                    if deep:
                        a = ATOMS[i]
                        for q in _payload_polys(a):
                            q.atoms(True, seen)
                if isinstance(e, Poly):
                    e.atoms(deep, seen)
        return seen

    # -- ring operations --------------------------------------------------------------
    def __add__(self, other):
        other = topoly(other)
        if other is None:
            return NotImplemented
        if not other.t:
            return self
        if not self.t:
            return other
        if len(self.t) < len(other.t):
            a, b = other.t, self.t
        else:
            a, b = self.t, other.t
        t = dict(a)
        for m, c in b.items():
            s = t.get(m)
            if s is None:
                t[m] = c
            else:
                s = _num(s + c)
                if s == 0:
                    del t[m]
                else:
                    t[m] = s
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, other):
        other = topoly(other)
        if other is None:
            return NotImplemented
        return self + (-other)

    def __rsub__(self, other):
        return (-self) + other

    def __mul__(self, other):
        other = topoly(other)
        if other is None:
            return NotImplemented
        if not self.t or not other.t:
            return ZERO
        if len(self.t) == 1 and () in self.t:
            c = self.t[()]
            return other if c == 1 else Poly({m: _num(c * d) for m, d in other.t.items()})
        if len(other.t) == 1 and () in other.t:
            c = other.t[()]
            return self if c == 1 else Poly({m: _num(c * d) for m, d in self.t.items()})
        if BUDGET[0] is not None:
            BUDGET[0] -= len(self.t) * len(other.t)
            if BUDGET[0] < 0:
                raise TooBig("term budget exhausted")
        t = {}
        ot = list(other.t.items())
        for m, c in self.t.items():
            for n, d in ot:
                k = _mono_mul(m, n)
                s = t.get(k)
                v = c * d
                t[k] = v if s is None else s + v
        return _fix(Poly({m: _num(c) for m, c in t.items() if c != 0}))

    __rmul__ = __mul__

    def __truediv__(self, other):
        other = topoly(other)
        if other is None:
            return NotImplemented
        return self * other.power(-1)

    def __rtruediv__(self, other):
        return topoly(other) * self.power(-1)

    def __pow__(self, e):
        e = topoly(e)
        if e is None:
            return NotImplemented
        c = e.as_const()
        return self.power(e if c is None else c)

    def __rpow__(self, b):
        return topoly(b) ** self

    def power(self, e):
        """Raise to an exponent (int, Fraction or symbolic Poly)."""
        e = _num(e)
        sym = isinstance(e, Poly)
        if not sym:
            if e == 0:
                return ONE
            if e == 1:
                return self
        integer = isinstance(e, int)
        if not self.t:
            if not sym and e > 0:
                return ZERO
            return app("nan", "0**%s" % (e,))
        c = self.as_const()
        if c is not None:
            return _const_power(c, e)
        if len(self.t) == 1:
            (m, q), = self.t.items()
            if integer:
                r = {tuple((i, _emul(x, e)) for i, x in m): _num(Fraction(q) ** e)}
                return _fix(Poly(r))
            if q > 0:
                inner = [(i, x) for i, x in m if ATOMS[i].pos]
                outer = [(i, x) for i, x in m if not ATOMS[i].pos]
                r = Poly({tuple((i, _emul(x, e)) for i, x in inner): 1})
                r = _fix(r)
                r = r * _const_power(q, e)
                if outer:
                    r = r * _powatom(Poly({tuple(outer): 1}), e)
                return r
            return _powatom(self, e)
        if integer and e > 0:
            r = None
            b = self
            n = e
            while n:
                if n & 1:
                    r = b if r is None else r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        # sum ** (negative or fractional or symbolic): take out content and monomial
        lead = min(self.t, key=_mkey)
        q = self.t[lead]
        if not integer:
            q = abs(q)
        mono = None
        for m in self.t:
            d = {i: x for i, x in m if isinstance(x, (int, Fraction))
                 and (integer or ATOMS[i].pos)}
            if mono is None:
                mono = d
            else:
                mono = {i: (min(mono.get(i, 0), d.get(i, 0)))
                        for i in set(mono) | set(d)}
        mono = {i: x for i, x in mono.items() if x != 0}
        mm = tuple(sorted(mono.items()))
        inv = tuple((i, -x) for i, x in mm)
        base = Poly({_mono_mul(m, inv): _num(Fraction(c) / q) for m, c in self.t.items()})
        r = _powatom(base, e)
        if q != 1:
            r = r * _const_power(q, e)
        if mm:
            r = r * Poly({mm: 1}).power(e)
        return r

    # -- printing ---------------------------------------------------------------------
    def __str__(self, limit=8):
        if not self.t:
            return "0"
        out = []
        for k, (m, c) in enumerate(sorted(self.t.items(), key=lambda x: _mkey(x[0]))):
            if k >= limit:
                out.append("... (%d terms)" % len(self.t))
                break
            s = "*".join(
                ATOMS[i].name if x == 1 else "%s^%s" % (
                    ATOMS[i].name, x if isinstance(x, int) and x >= 0 else "(%s)" % (x,))
                for i, x in m
            )
            if not s:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%s*%s" % (c, s)
            out.append(s)
        return " + ".join(out).replace("+ -", "- ")

    def __repr__(self):
        return "<%s>" % self.__str__()


def _mkey(m):
    return tuple((i, str(e)) for i, e in m)


def _fix(p):
    """Fold prime atoms that got an integer exponent part, and power bases of integer >= 0
    exponents, back into the ring."""
    todo = None
    for m in p.t:
        for i, e in m:
            k = ATOMS[i].kind
            if k == "n" and not isinstance(e, Poly) and (e >= 1 or e < 0):
                todo = m
            elif k == "p" and isinstance(e, int) and e > 0:
                todo = m
        if todo is not None:
            break
    if todo is None:
        return p
    r = ZERO
    for m, c in p.t.items():
        keep, f = [], None
        for i, e in m:
            a = ATOMS[i]
            if a.kind == "n" and not isinstance(e, Poly) and (e >= 1 or e < 0):
                n = floor(e)
                c = _num(Fraction(c) * Fraction(a.payload) ** n)
                e = _num(e - n)
                if e != 0:
                    keep.append((i, e))
            elif a.kind == "p" and isinstance(e, int) and e > 0:
                g = a.payload.power(e)
                f = g if f is None else f * g
            else:
                keep.append((i, e))
        q = Poly({tuple(keep): c})
        r = r + (q if f is None else q * f)
    return r


def _factor(n):
    out = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _const_power(c, e):
    if c == 1:
        return ONE
    if isinstance(e, int):
        return const(Fraction(c) ** e)
    if c < 0:
        return app("nan", "(%s)**(%s)" % (c, e))
    c = Fraction(c)
    r = ONE
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in _factor(n).items():
            a = _new(("n", p), str(p), "n", True, p)
            r = r * _fix(Poly({((a.idx, _emul(e, s * k)),): 1}))
    return r


def _powatom(base, e):
    pos = base in POSITIVE or _all_positive(base)
    a = _new(("p", base), "(%s)" % base, "p", pos, base)
    if isinstance(e, int) and e > 0:
        return base.power(e)
    return Poly({((a.idx, e),): 1})


def _all_positive(p):
    return all(c > 0 and all(ATOMS[i].pos for i, _ in m) for m, c in p.t.items())


def assume_positive(p):
    """Register that an element is positive (e.g. the determinant of C)."""
    lead = min(p.t, key=_mkey)
    q = p.t[lead]
    POSITIVE.add(p)
    if q != 1:
        POSITIVE.add(p * (Fraction(1) / abs(q)))
    a = p.is_var()
    if a:
        a.pos = True


ZERO = Poly({})
ONE = Poly({(): 1})


def const(c):
    c = _num(c)
    return ZERO if c == 0 else Poly({(): c})


def topoly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return const(exact(x))
    return None


def exact(x):
    """Exact rational of a float literal; short fractions written as decimals
    (0.333...3) are recognised as the fraction they round."""
    f = Fraction(repr(x)) if x == x and abs(x) != float("inf") else None
    if f is None:
        raise ValueError("non-finite literal")
    g = Fraction(x).limit_denominator(1000)
    return g if float(g) == x else f


def var(name, pos=False, key=None):
    a = _new(("v", name if key is None else key), name, "v", pos, None)
    return Poly({((a.idx, 1),): 1})


def atom_of(p):
    return p.is_var()


def app(fn, *args, pos=False):
    """Application of an uninterpreted function."""
    name = "%s(%s)" % (fn, ", ".join(map(str, args)))
    if len(name) > 120:
        name = "%s(#%d)" % (fn, abs(hash((fn, args))) % 10**6)
    a = _new(("f", fn, args), name, "f", pos, (fn, args))
    return Poly({((a.idx, 1),): 1})


def abbreviation(name, definition, pos=False):
    a = _new(("a", name, definition), name, "a", pos, definition)
    return Poly({((a.idx, 1),): 1})


_UNK = [0]


def fresh_unknown(reason):
    _UNK[0] += 1
    p = var("unknown#%d[%s]" % (_UNK[0], reason))
    p.is_var().unknown = True
    return p


def has_unknown(p):
    return any(ATOMS[i].unknown for i in p.atoms(deep=True))


def _payload_polys(a):
    if a.kind in ("p", "a"):
        return [a.payload]
    if a.kind == "f":
        return [x for x in a.payload[1] if isinstance(x, Poly)]
    return []


# -- substitution -------------------------------------------------------------------------


def subst(p, mapping, expand=False, _memo=None):
    """Replace atoms (index -> Poly); with `expand`, unfold abbreviations as well."""
    memo = {} if _memo is None else _memo
    out = ZERO
    for m, c in p.t.items():
        keep, f = [], None
        for i, e in m:
            r = _subst_atom(i, mapping, expand, memo)
            if isinstance(e, Poly):
                e = subst(e, mapping, expand, memo)
                k = e.as_const()
                e = e if k is None else k
            if r is None:
                if e != 0:
                    keep.append((i, e))
            else:
                key = (i, e)
                g = memo.get(key)
                if g is None:
                    g = memo[key] = r.power(e)
                f = g if f is None else f * g
        q = _fix(Poly({tuple(keep): c}))
        out = out + (q if f is None else q * f)
    return out


def _subst_atom(i, mapping, expand, memo):
    if i in mapping:
        return mapping[i]
    key = ("atom", i)
    if key in memo:
        return memo[key]
    a = ATOMS[i]
    r = None
    if a.kind == "a":
        d = subst(a.payload, mapping, expand, memo)
        if expand:
            r = d
        elif d != a.payload:
            r = d
    elif a.kind == "p":
        d = subst(a.payload, mapping, expand, memo)
        if d != a.payload:
            r = d
    elif a.kind == "f":
        fn, args = a.payload
        new = tuple(subst(x, mapping, expand, memo) if isinstance(x, Poly) else x
                    for x in args)
        if new != args:
            r = app(fn, *new, pos=a.pos)
            r.is_var().unknown = a.unknown
    memo[key] = r
    return r


# -- zero test ----------------------------------------------------------------------------


def _split_exp(e):
    """Exponent -> (class modulo 1, integer part)."""
    if isinstance(e, int):
        return 0, e
    if isinstance(e, Fraction):
        n = floor(e)
        return e - n, n
    c = e.t.get((), 0)
    n = floor(c)
    return e - n, n


def _zero_groups(p):
    """Clear every power base; yields elements free of power bases, all of which must
    vanish for p to vanish."""
    todo = [p]
    while todo:
        q = todo.pop()
        if not q.t:
            continue
        best = -1
        for m in q.t:
            for i, _ in m:
                if i > best and ATOMS[i].kind == "p":
                    best = i
        if best < 0:
            yield q
            continue
        base = ATOMS[best].payload
        groups = {}
        for m, c in q.t.items():
            e = 0
            rest = []
            for i, x in m:
                if i == best:
                    e = x
                else:
                    rest.append((i, x))
            k, n = _split_exp(e)
            groups.setdefault(k, {}).setdefault(n, []).append((tuple(rest), c))
        for k, byint in groups.items():
            lo = min(byint)
            r = ZERO
            for n, terms in byint.items():
                s = Poly(dict(terms))
                r = r + (s * base.power(n - lo) if n > lo else s)
            todo.append(r)


def is_zero(p, mapping=None):
    """Decide p == 0 in the domain (exact, after unfolding abbreviations)."""
    if not p.t:
        return True
    if mapping:
        p = subst(p, mapping)
    if not any(True for _ in _zero_groups(p)):
        return True
    if not any(ATOMS[i].kind == "a" for i in p.atoms(deep=True)):
        return False
    q = p
    for _ in range(8):
        if not any(ATOMS[i].kind == "a" for i in q.atoms(deep=True)):
            break
        q = subst(q, mapping or {}, expand=True)
    return not any(True for _ in _zero_groups(q))


# -- differentiation ----------------------------------------------------------------------


def diff(p, x, rules=None, _memo=None):
    """Formal derivative of p w.r.t. atom index x.  rules: atom index -> derivative."""
    memo = {} if _memo is None else _memo
    out = ZERO
    for m, c in p.t.items():
        for k, (i, e) in enumerate(m):
            d = _datom(i, x, rules, memo)
            if isinstance(e, Poly) and diff(e, x, rules, memo).t:
                raise NotImplementedError("derivative of a symbolic exponent")
            if not d.t:
                continue
            rest = Poly({m[:k] + m[k + 1:]: c})
            if e == 1:
                out = out + rest * d
            else:
                en = topoly(e)
                e1 = _eadd(e, -1)
                b = ONE if (not isinstance(e1, Poly) and e1 == 0) else \
                    _fix(Poly({((i, e1),): 1}))
                out = out + rest * en * b * d
    return out


def _datom(i, x, rules, memo):
    if i == x:
        return ONE
    if rules is not None and i in rules:
        return rules[i]
    key = ("d", i)
    if key in memo:
        return memo[key]
    a = ATOMS[i]
    if a.kind in ("p", "a"):
        r = diff(a.payload, x, rules, memo)
    elif a.kind == "f":
        fn, args = a.payload
        r = ZERO
        for k, q in enumerate(args):
            if isinstance(q, Poly):
                dq = diff(q, x, rules, memo)
                if dq.t:
                    r = r + _dapp(fn, args, k) * dq
    else:
        r = ZERO
    memo[key] = r
    return r


def _dapp(fn, args, k):
    u = args[k]
    if fn == "exp":
        return app("exp", u, pos=True)
    if fn == "log":
        return u.power(-1)
    if fn == "sin":
        return app("cos", u)
    if fn == "cos":
        return -app("sin", u)
    return app("D%d[%s]" % (k, fn), *args)


# -- identity testing ---------------------------------------------------------------------
#
# Exact expansion decides most equalities.  Where the expanded form would be too large,
# two normal forms are compared as functions: both are evaluated with 50 digits at
# generic points (every variable a random number, every uninterpreted application a random
# number determined by its evaluated arguments).  A difference refutes the identity; for
# the piecewise-analytic terms of the domain, agreement at several generic points leaves
# a vanishing probability of error.


class Point:
    """A generic assignment of numbers to atoms."""

    def __init__(self, seed=0, given=None, dps=50):
        import mpmath
        self.mp = mpmath.mp.clone()
        self.mp.dps = dps
        self.seed = seed
        self.val = dict(given or {})
        self.fn = {}

    def rnd(self, key, pos=False, isint=False):
        import hashlib
        h = hashlib.sha256(("%s|%s" % (self.seed, key)).encode()).digest()
        x = int.from_bytes(h[:16], "big")
        if isint:
            return self.mp.mpf(2 + x % 7)
        v = self.mp.mpf(x) / 2 ** 128
        if pos:
            return v + self.mp.mpf(1) / 2
        return 2 * v - 1

    def atom(self, i):
        v = self.val.get(i)
        if v is None:
            v = self.val[i] = self._atom(i)
        return v

    def _atom(self, i):
        a = ATOMS[i]
        if a.kind in ("p", "a"):
            return self.poly(a.payload)
        if a.kind == "n":
            return self.mp.mpf(a.payload)
        if a.kind == "f":
            fn, args = a.payload
            ev = [self.poly(x) if isinstance(x, Poly) else x for x in args]
            mp = self.mp
            h = {"exp": mp.exp, "log": mp.log, "sin": mp.sin, "cos": mp.cos, "tan": mp.tan,
                 "abs": abs, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh,
                 "arcsin": mp.asin, "arccos": mp.acos, "arctan": mp.atan}.get(fn)
            if h is not None and len(ev) == 1:
                return mp.mpmathify(h(ev[0]))
            if fn in ("float32", "float16") and len(ev) == 1:
                import struct
                f = "f" if fn == "float32" else "e"
                return mp.mpf(struct.unpack(f, struct.pack(f, float(ev[0])))[0])
            if fn in ("maximum", "max") and all(isinstance(x, Poly) for x in args):
                return max(ev)
            if fn in ("minimum", "min") and all(isinstance(x, Poly) for x in args):
                return min(ev)
            key = (fn,) + tuple(
                mp.nstr(x, 25) if isinstance(y, Poly) else str(x) for x, y in zip(ev, args))
            return self.rnd(key, a.pos, a.isint)
        return self.rnd(("var", a.name), a.pos, a.isint)

    def poly(self, p):
        mp = self.mp
        s = mp.mpf(0)
        for m, c in p.t.items():
            t = mp.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mp.mpf(c)
            for i, e in m:
                b = self.atom(i)
                if isinstance(e, Poly):
                    t = t * mp.power(b, self.poly(e))
                elif isinstance(e, int):
                    if e < 0 and b == 0:
                        raise ZeroDivisionError
                    t = t * b ** e
                else:
                    t = t * mp.power(b, mp.mpf(e.numerator) / e.denominator)
            s = s + t
        return s

    def scale(self, p):
        mp = self.mp
        s = mp.mpf(0)
        for m, c in p.t.items():
            s += abs(self.poly(Poly({m: c})))
        return s


def refutes(p, point):
    """Is p clearly different from zero at the point?"""
    try:
        v = point.poly(p)
        if v == 0:
            return False
        sc = point.scale(p)
    except ZeroDivisionError:
        return False
    return abs(v) > sc * point.mp.mpf(10) ** (-point.mp.dps // 2)


def nterms(p):
    return len(p.t)


def exactly_zero(p, budget=200000):
    """Exact decision with a term budget: True, False or None (too large)."""
    if not p.t:
        return True
    saved = BUDGET[0]
    BUDGET[0] = budget
    try:
        return is_zero(p)
    except TooBig:
        return None
    finally:
        BUDGET[0] = saved
