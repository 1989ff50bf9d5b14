"""Sequences: how the values of a one-dimensional array start, end, grow and bend, whatever its length."""
from __future__ import annotations

from .algebra import COMM, NF, ONE, ZERO, Value, digits_of
from .arrays import Fixed, Mismatch, Poly, Unknown, _Wrap
from .terms import cval, is_const, subterms


class Seq:
    """first, last: exact; mono: '+', '-', '0'; curv: '0' linear, '+' steps grow in the direction of the values
    (convex), '-' concave; given: the explicit array it is, if any."""

    def __init__(self, first, last, mono, curv, given=None, ordered=False):
        self.first, self.last, self.mono, self.curv = first, last, mono, curv
        self.given, self.ordered = given, ordered

    def reverse(self):
        if self.given is not None:
            raise Unknown()
        return Seq(self.last, self.first, flip(self.mono), self.curv)

    def __repr__(self):
        return f"Seq({self.first}..{self.last} {self.mono}{self.curv})" if self.given is None else f"given({self.given})"


def flip(s):
    return {"+": "-", "-": "+"}.get(s, s)


def both(a, b):
    """Sign of a sum."""
    if a == "0":
        return b
    if b == "0" or a == b:
        return a
    raise Unknown()


def strict(v, nf):
    s = v.cases.sign(nf)
    if s in ("+", "-", "0"):
        return s
    raise Unknown()


class Sequences:
    def __init__(self, A, cases):
        self.A, self.v = A, Value(A, cases)

    def of(self, e, digit):
        """Sequence of the element expression *e* over *digit*."""
        o = COMM.get(e[0], e[0])
        if o == "k":
            x = self.v.term(e[1])
            return Seq(x, x, "0", "0")
        if o == "idx":
            if e[1] != (digit,):
                raise Unknown()
            return Seq(ZERO, self.length(digit) - ONE, "+", "0")
        if o == "at":
            if len(e[2]) != 1 or e[2][0][0] != "radix" or len(e[2][0][1]) != 1:
                raise Unknown()
            d = e[2][0][1][0]
            if isinstance(d, _Wrap):
                if d.tag == "rev" and d.of is digit:
                    return self.term(e[1]).reverse()
                raise Unknown()
            if d is not digit:
                raise Unknown()
            return self.term(e[1])
        if o in ("+", "-"):
            a, b = self.of(e[1], digit), self.of(e[2], digit)
            if o == "-":
                b = self.scale(b, NF.of(-1))
            self.plain(a, b)
            return Seq(a.first + b.first, a.last + b.last, both(a.mono, b.mono), both(a.curv, b.curv))
        if o == "neg":
            return self.scale(self.of(e[1], digit), NF.of(-1))
        if o in ("*", "/"):
            a, b = self.of(e[1], digit), self.of(e[2], digit)
            if o == "*" and a.mono == "0":
                a, b = b, a
            if b.mono == "0" and b.given is None:
                return self.scale(a, b.first if o == "*" else self.v.bin("/", ONE, b.first))
            raise Unknown()
        if o in ("log10", "log", "log2", "log1p", "sqrt", "exp", "exp2", "expm1"):
            return self.map(o, self.of(e[1], digit))
        if o == "**":
            a, b = self.of(e[1], digit), self.of(e[2], digit)
            if a.mono == "0" and a.first.const is not None and a.first.const > 1:
                s = self.map("exp", b, lambda x: self.v.bin("**", a.first, x))
                return s
            raise Unknown()
        if o == "phi":
            c = self.A.ip.decide(e[1])
            if c is None:
                raise Unknown()
            return self.of(e[2] if c else e[3], digit)
        raise Unknown()

    def plain(self, *ss):
        if any(s.given is not None for s in ss):
            raise Mismatch()

    def scale(self, s, k):
        self.plain(s)
        g = strict(self.v, k)
        f = (lambda x: flip(x)) if g == "-" else (lambda x: x)
        if g == "0":
            return Seq(ZERO, ZERO, "0", "0")
        return Seq(s.first * k, s.last * k, f(s.mono), f(s.curv))

    def map(self, o, s, fn=None):
        """Increasing functions that bend one way."""
        self.plain(s)
        bend = "-" if o in ("log10", "log", "log2", "log1p", "sqrt") else "+"
        if fn is None:
            if o == "log1p":
                fn = lambda x: self.v.func("log", x + ONE)  # noqa: E731
            elif o == "log2":
                fn = lambda x: self.v.func("log2", x)  # noqa: E731
            else:
                fn = lambda x: self.v.func(o, x)  # noqa: E731
        if s.mono == "0":
            return Seq(fn(s.first), fn(s.last), "0", "0")
        if s.curv not in ("0", bend):
            raise Unknown()
        return Seq(fn(s.first), fn(s.last), s.mono, bend)

    def length(self, d):
        return self.nf(d.len)

    def nf(self, p):
        out = ZERO
        for k, c in p.m.items():
            m = NF.of(c)
            for a in k:
                m = m * self.v.term(a)
            out = out + m
        return out

    def term(self, t):
        """Sequence of an array made by a library call."""
        t = self.A.pick(t)
        if t.op == "call" and t.args[0].op == "glob":
            n, a = t.args[0].args[0], t.args[1]
            if n in ("numpy.sort", "builtins.sorted") and len(a) == 1 and not t.args[2]:
                x = self.A.arr(a[0])
                if x is None or x.ndim != 1 or len(x.axes[0]) > 1:
                    raise Unknown()
                s = self.of(x.elem, x.axes[0][0]) if x.axes[0] else None
                if s is None:
                    raise Unknown()
                if s.given is not None:
                    return Seq(None, None, "+", None, s.given, True)
                return s if s.mono in ("+", "0") else s.reverse()
            if n == "numpy.linspace" and len(a) >= 3:
                kw = dict(t.args[2])
                lo, hi = self.v.term(a[0]), self.v.term(a[1])
                mono = strict(self.v, hi - lo)
                if set(kw) - {"endpoint", "dtype", "num"}:
                    raise Unknown()
                if "endpoint" in kw or len(a) > 3:
                    e = kw.get("endpoint", a[3] if len(a) > 3 else None)
                    if not (e is not None and is_const(e) and cval(e) in (True, False)):
                        raise Unknown()
                    if not cval(e):
                        hi = hi - self.v.bin("/", hi - lo, self.nf(self.A.poly(a[2])))
                return Seq(lo, hi, mono, "0")
            if n == "numpy.geomspace" and len(a) >= 3:
                lo, hi = self.v.term(a[0]), self.v.term(a[1])
                if strict(self.v, lo) != "+" or strict(self.v, hi) != "+":
                    raise Unknown()
                return Seq(lo, hi, strict(self.v, hi - lo), "+")
            if n == "numpy.logspace" and len(a) >= 3 and not t.args[2]:
                ten = NF.of(10)
                lo, hi = self.v.term(a[0]), self.v.term(a[1])
                return Seq(self.v.bin("**", ten, lo), self.v.bin("**", ten, hi), strict(self.v, hi - lo), "+")
        if t.op == "sym":
            return Seq(None, None, None, None, t)
        raise Unknown()


class Fractions(Value):
    """Values of coordinates in which sequences running from 0 to 1 are named by the digit they run over."""

    def __init__(self, A, cases, free, leaf=None):
        super().__init__(A, cases, leaf)
        self.free, self.seqs, self.found = free, Sequences(A, cases), {}

    def elem(self, e):
        p = self.fraction(e)
        if p is not None:
            return p
        if e[0] == "at":
            q = self.spread(e)
            if q is not None:
                return q
        if e[0] == "idx" and len(e[1]) == 1 and e[1][0].len != Poly.of(1):
            return NF.of(("P", e[1][0], "0", True)) * (self.seqs.length(e[1][0]) - ONE)
        return super().elem(e)

    def spread(self, e):
        """Values made by a library call over one digit: evenly spaced ones are exact, others must be understood."""
        t = e[1]
        if isinstance(t, tuple):
            return None
        t = self.A.pick(t)
        if t.op != "call" or t.args[0].op != "glob":
            return None
        ds = digits_of(e[2])
        if not ds and len(e[2]) == 1:
            end = e[2][0]
            if end == ("int", 0):
                return self.seqs.term(t).first
            if end[0] == "radix" and len(end[1]) == 1 and isinstance(end[1][0], Fixed) and end[1][0].what == "-1":
                return self.seqs.term(t).last
        if len(ds) == 1 and len(e[2]) == 1:
            d, = ds
            if t.args[0].args[0] == "numpy.linspace" and len(t.args[1]) == 3 and set(dict(t.args[2])) <= {"dtype"} and e[2][0] == ("radix", (d,)):
                lo, hi = self.term(t.args[1][0]), self.term(t.args[1][1])
                return lo + NF.of(("P", d, "0", True)) * (hi - lo)
            try:
                s = self.seqs.of(e, d)
            except (Unknown, Mismatch):
                raise Unknown()
            if s.given is None or not s.ordered:
                return NF.of(("odd", d, str(s)))
        raise Unknown()

    def fraction(self, e):
        if not isinstance(e, tuple) or e[0] in ("k", "idx"):
            return None
        ds = digits_of(e)
        if len(ds) != 1:
            return None
        d, = ds
        k = (e, d)
        if k not in self.found:
            self.found[k] = None
            if not any(x.op == "sym" and x.args[0] not in self.free for t in terms_in(e) for x in subterms(t)):
                try:
                    s = self.seqs.of(e, d)
                except (Unknown, Mismatch):
                    s = None
                if s is not None:
                    if s.given is not None:
                        self.found[k] = NF.of(("P", d, s.given.args[0], s.ordered))
                    elif (s.first, s.last, s.mono) == (ZERO, ONE, "+"):
                        self.found[k] = NF.of(("P", d, s.curv, True))
        return self.found[k]


def terms_in(e):
    from .terms import Term
    stack = [e]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)
