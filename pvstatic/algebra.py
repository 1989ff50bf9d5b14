"""Exact symbolic values of array elements: polynomials over the leaves of an element expression.

Nothing is executed or handed to a solver: expressions are rewritten to a normal form in which equal values have equal
representations for the operations used in mesh construction; comparisons are decided from the signs of their leaves.
"""
from __future__ import annotations

import math
from fractions import Fraction

from .arrays import Atom, Fixed, Mismatch, Poly, Unknown, _Wrap
from .terms import Term, const, cval, is_const, is_glob, mk


class NF:
    """Polynomial with exact coefficients over hashable atoms."""

    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v}

    @staticmethod
    def of(x):
        if isinstance(x, (int, Fraction)):
            return NF({(): Fraction(x)})
        if isinstance(x, float):
            return NF({(): Fraction(repr(x))})
        return NF({((x, 1),): Fraction(1)})

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return NF(m)

    def __neg__(self):
        return NF({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        m = {}
        for a, x in self.m.items():
            for b, y in o.m.items():
                k = _mono(a, b)
                m[k] = m.get(k, 0) + x * y
        return NF(m)

    def __eq__(self, o):
        return isinstance(o, NF) and self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    @property
    def const(self):
        if not self.m:
            return Fraction(0)
        return self.m[()] if set(self.m) == {()} else None

    def atoms(self):
        return {a for k in self.m for a, _ in k}

    def coef(self, atom):
        """(coefficient of atom^1, rest without atom); Mismatch on higher powers."""
        c, r = {}, {}
        for k, v in self.m.items():
            e = dict(k).get(atom, 0)
            if e == 0:
                r[k] = v
            elif e == 1:
                c[tuple(x for x in k if x[0] != atom)] = v
            else:
                raise Mismatch()
        return NF(c), NF(r)

    def subst(self, f):
        """Replace atoms: f(atom) -> NF or None."""
        out = NF()
        for k, v in self.m.items():
            t = NF({(): v})
            for a, e in k:
                r = f(a)
                if r is None:
                    r = NF({((a, e),): Fraction(1)})
                    t = t * r
                    continue
                if e < 0:
                    r, e = inverse(r), -e
                for _ in range(e):
                    t = t * r
            out = out + t
        return out

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for k, v in sorted(self.m.items(), key=str):
            s = "*".join(f"{name(a)}" + (f"^{e}" if e != 1 else "") for a, e in k)
            out.append(s if v == 1 and s else f"{v}" + (f"*{s}" if s else ""))
        return " + ".join(out)


def name(a):
    if isinstance(a, tuple) and a and a[0] == "at":
        return str(a[1] if not isinstance(a[1], Term) else _short(a[1]))
    return str(a)


def _short(t):
    from .terms import show
    return show(t, 3)


def _mono(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: (str(hash(p[0])), p[1])))


ZERO, ONE = NF(), NF.of(1)


def inverse(x):
    """1/x for a single monomial; other denominators become an atom of their own."""
    if not x.m:
        raise Unknown()
    if len(x.m) == 1:
        (k, v), = x.m.items()
        return NF({tuple((a, -e) for a, e in k): 1 / v})
    return NF({((("sum", frozenset(x.m.items())), -1),): Fraction(1)})


class Cases:
    """What is known about the atoms in the case under consideration."""

    def __init__(self, signs=None, values=None, least=None):
        self.signs, self.values, self.least = dict(signs or {}), dict(values or {}), dict(least or {})
        for a, v in self.least.items():
            self.signs.setdefault(a, "+" if v > 0 else ">=" if v == 0 else None)

    def sign(self, x):
        """'+', '-', '0', '>=', '<=' or None."""
        s = self._sign(x)
        if s is None and self.least and x.atoms() & set(self.least):
            y = x.subst(lambda a: NF.of(self.least[a]) + NF.of(("above", a)) if a in self.least else None)
            s = self._sign(y)
        return s

    def _sign(self, x):
        if not x.m:
            return "0"
        s = set()
        for k, v in x.m.items():
            t = "+" if v > 0 else "-"
            for a, e in k:
                q = self.signs.get(a)
                if q is None and isinstance(a, tuple) and a and a[0] in ("abs", "sqrt", "exp", "exp_base"):
                    q = ">=" if a[0] in ("abs", "sqrt") else "+"
                if q is None and isinstance(a, tuple) and a and a[0] == "above":
                    q = ">="
                if e % 2 == 0:
                    q = {"-": "+", "<=": ">=", None: ">="}.get(q, q)
                t = _times(t, q)
            s.add(t)
        s.discard("0")
        if not s:
            return "0"
        if None in s:
            return None
        if s <= {"+", ">="}:
            return "+" if "+" in s else ">="
        if s <= {"-", "<="}:
            return "-" if "-" in s else "<="
        return None


def _times(a, b):
    if a is None or b is None:
        return None
    if "0" in (a, b):
        return "0"
    neg = (a in ("-", "<=")) != (b in ("-", "<="))
    strict = a in "+-" and b in "+-"
    return ("-" if neg else "+") if strict else ("<=" if neg else ">=")


COMM = {"add": "+", "subtract": "-", "multiply": "*", "true_divide": "/", "divide": "/", "negative": "neg", "absolute": "abs",
        "fabs": "abs", "power": "**", "radians": "deg2rad", "degrees": "rad2deg", "fmax": "maximum", "fmin": "minimum",
        "square": "square", "logical_not": "not"}
FUNCS = {"cos", "sin", "tan", "deg2rad", "rad2deg", "log10", "log", "exp", "sqrt", "arccos", "arcsin", "arctan", "floor", "ceil"}


class Fork(Unknown):
    """A condition that the case does not decide."""

    def __init__(self, key):
        super().__init__()
        self.key = key


class Value:
    """Normal forms of element expressions in one case."""

    def __init__(self, A, cases=None, leaf=None):
        self.A, self.cases, self.leaf = A, cases or Cases(), leaf
        self.forced = {}

    # -- element expressions
    def elem(self, e):
        if not isinstance(e, tuple):
            raise Unknown()
        o = COMM.get(e[0], e[0])
        if o == "k":
            return self.term(e[1])
        if o == "at":
            return self.atom(e)
        if o == "idx":
            return NF.of(("idx", e[1])) if e[1] else ZERO
        if o in ("+", "-", "*", "/", "**", "//", "%"):
            return self.bin(o, self.elem(e[1]), self.elem(e[2]))
        if o == "neg":
            return -self.elem(e[1])
        if o == "square":
            x = self.elem(e[1])
            return x * x
        if o == "where":
            return self.where(self.cond(e[1]), e[2], e[3], e[1])
        if o == "phi":
            c = self.A.ip.decide(e[1])
            c = self.truth(e[1]) if c is None else c
            return self.where(c, e[2], e[3], ("if", e[1]))
        if o in ("maximum", "minimum"):
            a, b = self.elem(e[1]), self.elem(e[2])
            return self.extreme(o, a, b)
        if o == "clip":
            raise Unknown()
        if o == "abs":
            x = self.elem(e[1])
            return self.abs(x)
        if o in FUNCS and len(e) == 2:
            return self.func(o, self.elem(e[1]))
        if o == "i":
            return NF.of(e[1])
        raise Unknown()

    def where(self, c, a, b, key):
        if c is None:
            c = self.forced.get(key)
        if c is not None:
            return self.elem(a if c else b)
        x, y = self.elem(a), self.elem(b)
        if x == y:
            return x
        raise Fork(key)

    def truth(self, t):
        """A condition on numbers."""
        if t.op == "not":
            c = self.truth(t.args[0])
            return None if c is None else not c
        try:
            if t.op == "cmp" and t.args[0] in ("==", "<", "<=", ">", ">=", "!="):
                return decide(t.args[0], self.cases.sign(self.term(t.args[1]) - self.term(t.args[2])))
        except (Unknown, Mismatch):
            pass
        return None

    def paths(self, e, limit=32):
        """Every value *e* can take when undecided conditions go either way (a superset of what happens), with the choices made."""
        out, work = [], [{}]
        while work:
            f = work.pop()
            self.forced = f
            try:
                out.append((self.elem(e), f))
            except Fork as k:
                if len(work) + len(out) > limit:
                    raise Unknown()
                work += [{**f, k.key: True}, {**f, k.key: False}]
            finally:
                self.forced = {}
        return out

    def outcomes(self, e, limit=32):
        return [x for x, _ in self.paths(e, limit)]

    def verdict(self, paths, good):
        """True: right on every path; False: wrong on all, or on one that certainly happens for some inputs; None: unclear."""
        res = [good(x) for x, _ in paths]
        if all(res):
            return True, paths[0][0]
        bad = [p for p, ok in zip(paths, res) if not ok]
        if len(bad) == len(paths):
            return False, bad[0][0]
        for x, f in bad:
            if len(f) == 1 and all(self.feasible(k, v) for k, v in f.items()):
                return False, x
        return None, bad[0][0]

    def feasible(self, k, val):
        """Inputs exist for which condition *k* is *val* (and the quantities compared differ)."""
        if k[0] == "ge" and isinstance(k[1], NF):
            return self.generic(k[1] - k[2])
        if not isinstance(k, tuple) or not k:
            return False
        o = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==", "not_equal": "!="}.get(k[0], k[0])
        if o == "if":
            t = k[1]
            if t.op == "not":
                return self.feasible(("if", t.args[0]), not val)
            return t.op == "cmp" and self.feasible((t.args[0], ("k", t.args[1]), ("k", t.args[2])), val)
        if o in ("not", "~", "invert", "logical_not") and len(k) == 2:
            return self.feasible(k[1], not val)
        if o in ("<", "<=", ">", ">=", "isclose", "==", "!="):
            if (o, val) in (("==", True), ("!=", False)):
                return False
            try:
                return self.generic(self.elem(k[1]) - self.elem(k[2]))
            except Unknown:
                return False
        return False

    def generic(self, d):
        """*d* takes every value: it is linear in an input nothing is known about."""
        for k, c in d.m.items():
            if len(k) == 1 and k[0][1] == 1 and self.free_atom(k[0][0]):
                a = k[0][0]
                if not any(a in deep_atoms(x) for m in d.m for x, _ in m if m != k):
                    return True
        return False

    def free_atom(self, a):
        if a in self.cases.signs or a in self.cases.least:
            return False
        if isinstance(a, str):
            return a != "pi"
        if not isinstance(a, tuple) or len(a) < 2:
            return False
        if a[0] == "k":
            return getattr(a[1], "op", None) == "sym"
        if a[0] != "at":
            return False
        t = a[1][1] if isinstance(a[1], tuple) and a[1][0] == "via" else a[1]
        while getattr(t, "op", None) == "attr" and t.args[1] in ("x", "y", "z", "points"):
            t = t.args[0]
        return getattr(t, "op", None) == "sym"

    def extreme(self, o, a, b):
        s = self.cases.sign(a - b)
        if s in ("+", ">=", "0"):
            return a if o == "maximum" else b
        if s in ("-", "<="):
            return b if o == "maximum" else a
        k = ("ge", a, b)
        c = self.forced.get(k)
        if c is not None:
            return a if c == (o == "maximum") else b
        raise Fork(k)

    def abs(self, x):
        s = self.cases.sign(x)
        if s in ("+", ">=", "0"):
            return x
        if s in ("-", "<="):
            return -x
        return NF.of(("abs", x))

    def func(self, o, x):
        c = x.const
        if o == "sqrt" and len(x.m) == 1:
            (k, v), = x.m.items()
            r = math.isqrt(v.numerator) if v > 0 else -1
            q = math.isqrt(v.denominator)
            if r >= 0 and r * r == v.numerator and q * q == v.denominator and all(
                    e % 2 == 0 and self.cases.signs.get(a) in ("+", ">=") for a, e in k):
                return NF({tuple((a, e // 2) for a, e in k): Fraction(r, q)})
        if c is not None:
            if o in ("sin", "tan", "deg2rad", "rad2deg", "sqrt", "arcsin", "arctan", "floor", "ceil") and c == 0:
                return ZERO
            if o in ("cos", "exp") and c == 0:
                return ONE
            if o in ("log", "log10") and c == 1:
                return ZERO
            if o == "log10":
                for i in range(-6, 7):
                    if c == Fraction(10) ** i:
                        return NF.of(i)
            if o == "sqrt" and c == 1:
                return ONE
        return NF.of((o, x))

    def bin(self, o, a, b):
        if o == "+":
            return a + b
        if o == "-":
            return a - b
        if o == "*":
            return a * b
        if o == "/":
            return a * inverse(b)
        if o == "**":
            c = b.const
            if c is not None and c.denominator == 1 and 0 <= c <= 6:
                r = ONE
                for _ in range(int(c)):
                    r = r * a
                return r
            if c == Fraction(1, 2):
                return self.func("sqrt", a)
            if c == -1:
                return inverse(a)
            if a.const is not None:
                return NF.of(("exp_base", a.const, b))
        raise Unknown()

    def cond(self, e):
        """Truth of an element condition in this case, or None."""
        o = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==", "not_equal": "!="}.get(e[0], e[0])
        if o in ("<", "<=", ">", ">=", "==", "!="):
            try:
                s = self.cases.sign(self.elem(e[1]) - self.elem(e[2]))
            except Unknown:
                return None
            return decide(o, s)
        if o in ("not", "~", "invert"):
            c = self.cond(e[1])
            return None if c is None else not c
        if o in ("logical_and", "&"):
            a, b = self.cond(e[1]), self.cond(e[2])
            return False if a is False or b is False else (True if a and b else None)
        if o in ("logical_or", "|"):
            a, b = self.cond(e[1]), self.cond(e[2])
            return True if a or b else (False if a is False and b is False else None)
        if o == "k" and is_const(e[1]) and isinstance(cval(e[1]), bool):
            return cval(e[1])
        return None

    def atom(self, e):
        if self.leaf is not None:
            r = self.leaf(e)
            if r is not None:
                return r
        r = self.cases.values.get(e)
        if r is not None:
            return r
        return NF.of(e)

    # -- scalar terms
    def term(self, t):
        t = self.A.pick(t)
        if t.op == "const":
            v = cval(t)
            if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v or v in (float("inf"), float("-inf")):
                raise Unknown()
            return NF.of(v)
        if t.op == "bin":
            return self.bin(t.args[0], self.term(t.args[1]), self.term(t.args[2]))
        if t.op == "un":
            if t.args[0] == "-":
                return -self.term(t.args[1])
            if t.args[0] == "+":
                return self.term(t.args[1])
        if t.op == "call":
            f = t.args[0]
            n = f.args[0].split(".")[-1] if f.op == "glob" else None
            if n in ("abs", "absolute", "fabs") and len(t.args[1]) == 1:
                return self.abs(self.term(t.args[1][0]))
            if n in ("float", "asanyarray", "asarray", "array", "float64") and len(t.args[1]) == 1:
                return self.term(t.args[1][0])
            if n in ("max", "maximum", "min", "minimum") and len(t.args[1]) == 2:
                return self.extreme("maximum" if n.startswith("max") else "minimum", *map(self.term, t.args[1]))
            if n in FUNCS | set(COMM) and len(t.args[1]) == 1:
                n = COMM.get(n, n)
                return self.elem((n, ("k", t.args[1][0])))
            if n == "sqrt" and len(t.args[1]) == 1:
                return self.func("sqrt", self.term(t.args[1][0]))
        if t.op == "attr" and is_glob(t, "numpy.pi", "math.pi"):
            return NF.of("pi")
        if t.op == "glob" and t.args[0] in ("numpy.pi", "math.pi"):
            return NF.of("pi")
        if t in self.cases.values:
            return self.cases.values[t]
        a = self.A.arr(t)
        if a is not None and a.ndim == 0 and a.elem != ("k", t):
            return self.elem(a.elem)
        return NF.of(("k", t))


def decide(o, s):
    if s is None:
        return None
    t = {"<": {"-": True, "<=": None, "0": False, ">=": False, "+": False},
         "<=": {"-": True, "<=": True, "0": True, ">=": None, "+": False},
         "==": {"-": False, "<=": None, "0": True, ">=": None, "+": False}}
    if o == ">":
        r = t["<="][s]
        return None if r is None else not r
    if o == ">=":
        r = t["<"][s]
        return None if r is None else not r
    if o == "!=":
        r = t["=="][s]
        return None if r is None else not r
    return t[o][s]


def deep_atoms(a):
    """*a* and everything inside it."""
    out, stack = set(), [a]
    while stack:
        x = stack.pop()
        if isinstance(x, NF):
            stack.extend(x.m)
        elif isinstance(x, (tuple, frozenset)):
            if isinstance(x, tuple):
                out.add(x)
            stack.extend(x)
        elif isinstance(x, str):
            out.add(x)
    return out


def digits_of(x):
    """All digits an atom or normal form depends on."""
    out = set()
    stack = [x]
    while stack:
        e = stack.pop()
        if isinstance(e, _Wrap):
            stack.append(e.of)
        elif isinstance(e, Atom):
            out.add(e)
        elif isinstance(e, (tuple, frozenset)):
            stack.extend(e)
        elif isinstance(e, NF):
            stack.extend(e.m)
    return out
