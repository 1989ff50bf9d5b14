"""Index-function domain: what an array holds at each position, axis by axis.

An array term is abstracted as axes plus an element expression.  An axis is a tuple of *atoms*
(mixed-radix digits, slowest first; the empty tuple is an axis of length one); the element is an
expression over the atoms.  Reshaping, tiling, repeating, transposing and broadcasting only move
atoms around, so "which source entry ends up where" is decided exactly.  Lengths are polynomials
over symbolic counts.  Anything not understood is ``None`` (clients stay silent).
"""
from __future__ import annotations

from . import extmodel as X
from .terms import NONE, TRUE, Term, const, cval, is_const, is_glob, mk, show

# ------------------------------------------------------------------ lengths


class Poly:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v}

    @staticmethod
    def of(v):
        return Poly({(): v}) if isinstance(v, int) else Poly({(v,): 1})

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return Poly(m)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        m = {}
        for a, x in self.m.items():
            for b, y in o.m.items():
                k = tuple(sorted(a + b, key=_order))
                m[k] = m.get(k, 0) + x * y
        return Poly(m)

    def key(self):
        return frozenset(self.m.items())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(self.key())

    @property
    def const(self):
        if not self.m:
            return 0
        if set(self.m) == {()}:
            return self.m[()]
        return None

    def lead(self):
        return max(self.m, key=lambda k: (len(k), [_order(x) for x in k]))

    def div(self, o):
        """Exact quotient, or None."""
        if not o.m:
            return None
        q, r = Poly({}), self
        for _ in range(64):
            if not r.m:
                return q
            lr, lo = r.lead(), o.lead()
            rest = list(lr)
            for x in lo:
                if x not in rest:
                    return None
                rest.remove(x)
            c, d = r.m[lr], o.m[lo]
            if c % d:
                return None
            t = Poly({tuple(rest): c // d})
            q, r = q + t, r - t * o
        return None

    def sign(self, pos):
        """>0 / <0 / 0 when known for all values >= 1 of the variables, else None."""
        if not self.m:
            return 0
        if any(not pos(x) for k in self.m for x in k):
            return None
        # with every variable >= 1: a lower bound takes variables = 1 in positive terms
        lo = sum(v for v in self.m.values())
        if all(v >= 0 for k, v in self.m.items() if k) and lo > 0:
            return 1
        if all(v <= 0 for k, v in self.m.items() if k) and lo < 0:
            return -1
        return None

    def nonneg(self, pos):
        """Certainly >= 0 for all values >= 1 of the variables."""
        return (all(pos(x) for k in self.m for x in k) and all(v >= 0 for k, v in self.m.items() if k)
                and sum(self.m.values()) >= 0)

    def __repr__(self):
        if not self.m:
            return "0"
        return "+".join("*".join(([str(v)] if v != 1 or not k else []) + [show(x, 3) for x in k])
                        for k, v in self.m.items())


_ids: dict = {}


def _order(x):
    return _ids.setdefault(x, len(_ids))


ONE = Poly.of(1)


def prod(ps):
    r = ONE
    for p in ps:
        r = r * p
    return r


class Atom:
    __slots__ = ("len", "name", "_cell")
    n = 0

    def __init__(self, length, name=""):
        self.len, self._cell = length, None
        Atom.n += 1
        self.name = name or f"i{Atom.n}"

    @property
    def cell(self):
        """The digit running over the intervals between consecutive positions."""
        if self._cell is None:
            n = self.len - ONE
            self._cell = () if n == ONE and False else Atom(n, self.name + "'")
        return self._cell

    def __repr__(self):
        return self.name


def digits(n, name=""):
    """A fresh axis of length *n*."""
    return () if n == ONE else (Atom(n, name),)


class Arr:
    __slots__ = ("axes", "elem")

    def __init__(self, axes, elem):
        self.axes, self.elem = tuple(axes), elem

    @property
    def ndim(self):
        return len(self.axes)

    def lens(self):
        return [axlen(a) for a in self.axes]

    def __repr__(self):
        return f"Arr{list(self.axes)}:{fmt(self.elem)}"


def axlen(ax):
    return prod(a.len for a in ax)


def fmt(e):
    if isinstance(e, Atom):
        return e.name
    if isinstance(e, Term):
        return show(e, 3)
    if isinstance(e, tuple):
        return "(" + " ".join(fmt(x) for x in e) + ")"
    return str(e)


def subst(e, m):
    """Replace atoms: m maps an atom to a tuple of atoms (digits) or to an int."""
    if not m:
        return e
    if isinstance(e, tuple):
        if e and e[0] == "radix":
            out = []
            for a in e[1]:
                if isinstance(a, _Wrap) and a.of in m:
                    r = m[a.of]
                    r = (a.over(r),)
                else:
                    r = m.get(a, (a,))
                out.extend(r if isinstance(r, tuple) else (r,))
            if len(out) == 1 and isinstance(out[0], int):
                return ("int", out[0])
            return ("radix", tuple(out))
        if e and e[0] == "idx":
            r = subst(("radix", e[1]), m)
            return ("idx", r[1]) if r[0] == "radix" else ("k", const(r[1]))
        if e and e[0] == "cat":
            r = m.get(e[1], (e[1],))
            z = r[0] if isinstance(r, tuple) and len(r) == 1 else Fixed(("cat", r))
            return ("cat", z, tuple((subst(("radix", ax), m)[1], subst(x, m)) for ax, x in e[2]))
        if e and e[0] == "sel":
            r = m.get(e[1], (e[1],))
            if isinstance(r, int):
                return subst(e[2][r], m)
            if len(r) == 1:
                return ("sel", r[0], tuple(subst(x, m) for x in e[2]))
            return ("sel?", r, tuple(subst(x, m) for x in e[2]))
        return tuple(subst(x, m) for x in e)
    return e


def atoms_in(e, out=None):
    out = set() if out is None else out
    if isinstance(e, _Wrap):
        out.add(e.of)
    elif isinstance(e, Atom):
        out.add(e)
    elif isinstance(e, tuple):
        for x in e:
            atoms_in(x, out)
    return out


def leaves_in(e, out=None):
    """All ("at", base, index) references in *e*."""
    out = [] if out is None else out
    if isinstance(e, tuple):
        if e and e[0] == "at":
            out.append(e)
        for x in e:
            leaves_in(x, out)
    return out


def rename(a):
    """The same array over fresh atoms."""
    m = {}
    axes = []
    for ax in a.axes:
        n = tuple(Atom(x.len, x.name) for x in ax)
        for o, x in zip(ax, n):
            m[o] = (x,)
            x._cell = o._cell
        axes.append(n)
    return Arr(axes, subst(a.elem, m))


class Mismatch(Exception):
    pass


class Clash(Mismatch):
    """numpy certainly refuses the operation (for all but degenerate sizes)."""


class Unknown(Exception):
    pass


def match(a, b):
    """Common refinement of two digit tuples of equal length: (digits, map for a, map for b)."""
    a, b = list(a), list(b)
    out, ma, mb = [], {}, {}

    def put(m, atom, parts):
        # a split atom keeps its remaining slow part under the same key: resolve at the end
        m.setdefault(atom, []).insert(0, parts)

    pa, pb = {}, {}
    sa = [(x, x.len) for x in a]
    sb = [(x, x.len) for x in b]
    while sa and sb:
        x, lx = sa.pop()
        y, ly = sb.pop()
        if lx == ly:
            # prefer an original atom of a when whole
            z = x if lx == x.len else (y if ly == y.len else Atom(lx))
            out.insert(0, z)
            pa.setdefault(x, []).insert(0, z)
            pb.setdefault(y, []).insert(0, z)
            continue
        q = lx.div(ly)
        if q is not None and q != ONE:
            z = y if ly == y.len else Atom(ly)
            out.insert(0, z)
            pa.setdefault(x, []).insert(0, z)
            pb.setdefault(y, []).insert(0, z)
            sa.append((x, q))
            continue
        q = ly.div(lx)
        if q is not None and q != ONE:
            z = x if lx == x.len else Atom(lx)
            out.insert(0, z)
            pa.setdefault(x, []).insert(0, z)
            pb.setdefault(y, []).insert(0, z)
            sb.append((y, q))
            continue
        raise Mismatch()
    if sa or sb:
        raise Mismatch()
    return tuple(out), {k: tuple(v) for k, v in pa.items()}, {k: tuple(v) for k, v in pb.items()}


def scramble(old, new):
    """Map of the digits of *old* when re-read with the incompatible radix *new*."""
    return {x: (Atom(x.len, f"digit({x.name} of {'*'.join(y.name for y in new)})"),) for x in old}


ELEMENTWISE = {"cos", "sin", "tan", "deg2rad", "radians", "rad2deg", "degrees", "log10", "log", "exp", "sqrt", "abs",
               "absolute", "negative", "power", "floor", "ceil", "round", "where", "maximum", "minimum", "logical_and",
               "logical_or", "logical_not", "add", "subtract", "multiply", "divide", "true_divide", "square", "hypot",
               "arctan2", "isnan", "isin", "isclose"}
IDENT_FUNCS = {"numpy.asarray", "numpy.asanyarray", "numpy.array", "numpy.ascontiguousarray", "numpy.copy",
               "numpy.asfortranarray", "builtins.float", "builtins.int", "typing.cast"}
IDENT_METHODS = {"copy", "astype", "view", "tolist", "round"}


class Grid:
    """A structured grid: one axis per dimension, coordinates as element expressions."""

    def __init__(self, dims, coords, term=None):
        self.dims, self.coords, self.term = tuple(dims), coords, term

    def point_digits(self):
        return self.dims[2] + self.dims[1] + self.dims[0]

    def cell_dims(self):
        out = []
        for ax in self.dims:
            if not ax:
                out.append(())
            elif len(ax) == 1:
                out.append((ax[0].cell,))
            else:
                return None
        return out

    def cell_digits(self):
        c = self.cell_dims()
        return None if c is None else c[2] + c[1] + c[0]


class Arrays:
    def __init__(self, ip, base=None, positive=()):
        self.ip, self.base_hook = ip, base
        self.memo, self.grids, self.elems, self.clashes, self.masks = {}, {}, {}, {}, {}
        self.positive = set(positive)
        self.counts = None

        self.squeezed = {}

    def squeeze(self, t, x, axis):
        if axis is not None and not (is_const(axis) and cval(axis) is None):
            i = self.axis(axis, x.ndim)
            return Arr(x.axes[:i] + x.axes[i + 1:], x.elem) if not x.axes[i] else None
        out = Arr([ax for ax in x.axes if ax], x.elem)
        if out.ndim > 1:
            # lengths that only happen to be one are dropped as well
            self.squeezed[t] = out
        return out

    # -------------------------------------------------------------- scalars
    def pos(self, x):
        return x in self.positive or (
            isinstance(x, Term) and x.op == "call" and is_glob(x.args[0], "builtins.max")
            and any(is_const(a) and isinstance(cval(a), int) and cval(a) >= 1 for a in x.args[1]))

    def poly(self, t):
        """Length/integer value of *t* as a polynomial (opaque terms become variables)."""
        t = self.pick(t)
        if t.op == "const":
            v = cval(t)
            if isinstance(v, bool) or not isinstance(v, int):
                raise Unknown()
            return Poly.of(v)
        if t.op == "bin":
            o, a, b = t.args
            if o in ("+", "-", "*"):
                a, b = self.poly(a), self.poly(b)
                return a + b if o == "+" else a - b if o == "-" else a * b
            if o in ("//", "/"):
                q = self.poly(a).div(self.poly(b))
                if q is not None:
                    return q
                raise Unknown()
        if t.op == "elem" and self.elems.get(t.args[1]) is not None:
            return self.elems[t.args[1]]
        if t.op == "un" and t.args[0] == "-":
            return -self.poly(t.args[1])
        if t.op == "call" and is_glob(t.args[0], "builtins.max", "numpy.maximum") and len(t.args[1]) == 2:
            a, b = (self.poly(x) for x in t.args[1])
            if (a - b).nonneg(self.pos):
                return a
            if (b - a).nonneg(self.pos):
                return b
            return Poly.of(t)
        if t.op == "call" and is_glob(t.args[0], "builtins.int") and len(t.args[1]) == 1:
            return self.poly(t.args[1][0])
        if t.op == "call" and is_glob(t.args[0], "builtins.len", "numpy.size") and len(t.args[1]) == 1:
            x = self.pick(t.args[1][0])
            if x.op in ("tuple", "list") and is_glob(t.args[0], "builtins.len"):
                n = len(x.args)
                for y in x.args:
                    if y.op == "star":
                        s = self.shape(y.args[0])
                        if s is None:
                            return Poly.of(t)
                        n += len(s) - 1
                return Poly.of(n)
            a = self.arr(x)
            if a is None or not a.axes:
                return Poly.of(t)
            return axlen(a.axes[0]) if is_glob(t.args[0], "builtins.len") else prod(a.lens())
        if t.op == "call" and is_glob(t.args[0], "numpy.ndim") and len(t.args[1]) == 1:
            a = self.arr(t.args[1][0])
            if a is not None:
                return Poly.of(a.ndim)
        if t.op == "call" and is_glob(t.args[0], "numpy.prod", "math.prod") and len(t.args[1]) == 1:
            s = self.shape(t.args[1][0])
            if s is not None:
                return prod(s)
        if t.op == "phi":
            a, b = self.poly(t.args[1]), self.poly(t.args[2])
            if a == b:
                return a
        if t.op == "attr":
            b, n = t.args
            if n in ("n_cells", "n_points"):
                g = self.grid(b)
                if g is not None:
                    d = g.cell_digits() if n == "n_cells" else g.point_digits()
                    if d is not None:
                        return axlen(d)
                c = self.counts(b, n) if self.counts is not None else None
                if c is not None:
                    return c
            if n in ("size", "ndim"):
                a = self.arr(b)
                if a is not None:
                    return prod(a.lens()) if n == "size" else Poly.of(a.ndim)
        if t.op == "index":
            b, k = t.args
            if k.op == "const" and isinstance(cval(k), int):
                s = self.shape(b)
                if s is not None and -len(s) <= cval(k) < len(s):
                    return s[cval(k)]
        return Poly.of(t)

    def shape(self, t):
        """A term that denotes a tuple of lengths."""
        t = self.pick(t)
        if t.op in ("tuple", "list"):
            return self.lengths(t.args)
        if t.op == "obj" and t.args[0] == "list":
            lit = self.ip.literal(t)
            return None if lit is None else self.lengths(lit)
        if t.op == "bin" and t.args[0] == "+":
            a, b = self.shape(t.args[1]), self.shape(t.args[2])
            return None if a is None or b is None else a + b
        if t.op == "attr" and t.args[1] == "shape":
            a = self.arr(t.args[0])
            return None if a is None else a.lens()
        if t.op == "attr" and t.args[1] == "dimensions":
            g = self.grid(t.args[0])
            return None if g is None else [axlen(x) for x in g.dims]
        if t.op == "call" and is_glob(t.args[0], "builtins.tuple", "builtins.list", "numpy.array", "numpy.asarray") \
                and len(t.args[1]) == 1:
            return self.shape(t.args[1][0])
        if t.op == "comp" and t.args[0] in ("list", "gen", "tuple") and t.args[4] is TRUE:
            s = self.shape(t.args[3])
            if s is None:
                return None
            out = []
            for p in s:
                old = self.elems.get(t.args[2])
                self.elems[t.args[2]] = p
                try:
                    out.append(self.poly(t.args[1]))
                finally:
                    self.elems[t.args[2]] = old
            return out
        if t.op == "call" and is_glob(t.args[0], "numpy.shape"):
            a = self.arr(t.args[1][0])
            return None if a is None else a.lens()
        if t.op == "index" and t.args[1].op == "slice" and all(x.op == "const" for x in t.args[1].args):
            s = self.shape(t.args[0])
            return None if s is None else s[slice(*[cval(x) for x in t.args[1].args])]
        if t.op == "index" and t.args[1].op == "slice":
            s = self.shape(t.args[0])
            if s is None:
                return None
            try:
                b = [None if x is NONE else self.poly(x).const for x in t.args[1].args]
            except Unknown:
                return None
            if any(x is NONE and y is not None or x is not NONE and y is None for x, y in zip(t.args[1].args, b)):
                return None
            return s[slice(*b)]
        return None

    def lengths(self, items):
        out = []
        for x in items:
            if x.op == "star":
                s = self.shape(x.args[0])
                if s is None:
                    return None
                out += s
            else:
                out.append(self.poly(x))
        return out

    def pick(self, t):
        """Resolve decided gates."""
        n = 0
        while t.op == "phi" and n < 200:
            d = self.ip.decide(t.args[0])
            if d is None:
                return t
            t = t.args[1] if d else t.args[2]
            n += 1
        return t

    def assume(self, c):
        """Decide comparisons of lengths (for ``Interp.run(assume=...)``)."""
        if c.op == "cmp" and c.args[0] in ("==", "<", "<="):
            try:
                d = self.poly(c.args[1]) - self.poly(c.args[2])
            except Unknown:
                return None
            s = d.sign(self.pos)
            if s is None:
                if c.args[0] == "<" and d.nonneg(self.pos):
                    return False
                if c.args[0] == "<=" and (-d).nonneg(self.pos):
                    return True
                return None
            return {"==": s == 0, "<": s < 0, "<=": s <= 0}[c.args[0]]
        if c.op == "truth" and c.args[0].op in ("sym", "bin", "un", "call"):
            try:
                s = self.poly(c.args[0]).sign(self.pos)
            except Unknown:
                return None
            return None if s is None else s != 0
        return None

    # -------------------------------------------------------------- arrays
    def arr(self, t):
        t = self.pick(t)
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        try:
            r = self.base_hook(self, t) if self.base_hook is not None else None
            if r is None:
                r = self._arr(t)
        except Clash as e:
            r = None
            self.clashes[t] = str(e)
        except (Unknown, Mismatch, ValueError, IndexError, KeyError, AttributeError, TypeError, RecursionError):
            r = None  # not understood
        self.memo[t] = r
        return r

    def need(self, t):
        a = self.arr(t)
        if a is None:
            if self.pick(t) in self.clashes:
                raise Clash(self.clashes[self.pick(t)])
            raise Unknown()
        return a

    def clean(self, p):
        """Made of the scene's own sizes only."""
        return all(x in self.positive for mono in p.m for x in mono)

    def fit(self, a, b):
        """match(), telling certain from possible failures."""
        try:
            return match(a, b)
        except Mismatch:
            p, q = axlen(a), axlen(b)
            if p != q and self.clean(p) and self.clean(q) and ONE not in (p, q):
                raise Clash(f"sizes {p} and {q} do not fit")
            raise

    def scalar(self, t):
        return Arr((), ("k", t))

    def _arr(self, t):
        o = t.op
        if o == "const":
            return self.scalar(t)
        if o == "coord":
            return self.coord(t)
        if o == "phi":
            a, b = self.arr(t.args[1]), self.arr(t.args[2])
            if a is None or b is None:
                return None
            if a.ndim == b.ndim == 0:
                return Arr((), ("phi", t.args[0], a.elem, b.elem))
            try:
                return self.elementwise("phi", [a, b], extra=t.args[0])
            except Mismatch:
                return None
        if o == "sym":
            ts = self.ip.types(t)
            if ts is not None and ts <= {"int", "float", "bool", "none", "str"}:
                return self.scalar(t)
            return None
        if o in ("tuple", "list"):
            return self.stack([self.need(x) for x in t.args], 0)
        if o == "obj" and t.args[0] == "list":
            lit = self.ip.literal(t)
            if lit is None or not lit or any(x.op == "star" for x in lit):
                return None
            return self.stack([self.need(x) for x in lit], 0)
        if o == "bin":
            op, a, b = t.args
            return self.elementwise(op, [self.need(a), self.need(b)])
        if o == "cmp" and t.args[0] in ("==", "<", "<=", "!="):
            return self.elementwise(t.args[0], [self.need(t.args[1]), self.need(t.args[2])])
        if o == "un" and t.args[0] == "+":
            return self.need(t.args[-1])
        if o in ("un", "not"):
            return self.elementwise({"-": "neg", "~": "~"}[t.args[0]] if o == "un" else "not", [self.need(t.args[-1])])
        if o == "attr":
            return self.attr(t)
        if o == "index":
            return self.index(t)
        if o == "elem":
            a = self.need(t.args[0])
            if not a.axes:
                return None
            return Arr(a.axes[1:], a.elem)
        if o == "comp":
            return self.comp(t)
        if o == "store":
            try:
                a = self.store(t)
            except Unknown:
                a = None
            if a is None and t.args[1].op == "const":
                # one entry replaced: the same shape
                b = self.need(t.args[0])
                return Arr(b.axes, ("at", t, tuple(("radix", ax) for ax in b.axes)))
            return a
        if o == "dup":
            return self.arr(t.args[0])
        if o == "mu":
            # an array written to element by element in a loop keeps its shape
            for x in t.args:
                if isinstance(x, tuple) and len(x) == 2 and x[0] == "heap" and x[1][0] == "arr":
                    a = self.need(x[1][1])
                    return Arr(a.axes, ("at", t, tuple(("radix", ax) for ax in a.axes)))
            return None
        if o == "call":
            return self.call(t)
        return None

    def comp(self, t):
        it = self.pick(t.args[3])
        a = self.need(it)
        b = self.need(t.args[1])
        if not a.axes:
            raise Unknown()
        return Arr((a.axes[0],) + b.axes, b.elem)

    def attr(self, t):
        b, n = t.args
        if n == "T":
            a = self.need(b)
            return Arr(a.axes[::-1], a.elem)
        if n in ("size", "n_cells", "n_points", "ndim"):
            return Arr((), ("k", t))
        if n in ("x", "y", "z"):
            g = self.grid(b)
            if g is not None:
                return Arr(g.dims, g.coords["xyz".index(n)])
            return None
        if n == "points":
            g = self.grid(b)
            if g is not None:
                c = Atom(Poly.of(3), "c")
                return Arr((g.point_digits(), (c,)), ("sel", c, tuple(g.coords)))
            return None
        if n in ("real", "flat"):
            return self.arr(b)
        return None

    def coord(self, t):
        """x, y or z of a structured grid whose points have been written to."""
        pts, n, m = t.args
        g = self.grid(m)
        a = self.need(pts)
        if g is None or a.ndim != 2:
            raise Unknown()
        a = self.take(a, [mk("slice", NONE, NONE, NONE), const("xyz".index(n))])
        d = g.point_digits()
        com, ma, md = self.fit(d, a.axes[0])
        if com != d:
            raise Unknown()
        return Arr(g.dims, subst(a.elem, md))

    # -------------------------------------------------------------- grids
    def grid(self, t):
        t = self.pick(t)
        if t in self.grids:
            return self.grids[t]
        self.grids[t] = None
        g = None
        try:
            if t.op == "call":
                f = t.args[0]
                if is_glob(f, "pyvista.StructuredGrid") and len(t.args[1]) == 3:
                    a = self.align([self.need(x) for x in t.args[1]])
                    axes = list(a[0].axes) + [()] * (3 - len(a[0].axes))
                    if len(axes) == 3:
                        g = Grid(axes, tuple(x.elem for x in a), t)
                elif f.op == "attr" and f.args[1] in X.SAME_TOPO | {"cast_to_structured_grid"}:
                    g = self.grid(f.args[0])
                    v = self.shift_of(t) if g is not None and f.args[1] == "translate" else None
                    if v is not None:
                        g = Grid(g.dims, tuple(("+", e, q) for e, q in zip(g.coords, v)), t)
                    elif g is not None and f.args[1] in X.MOVES:
                        g = Grid(g.dims, tuple(("at", mk("attr", t, q), tuple(("radix", p) for p in g.dims)) for q in "xyz"), t)
                elif is_glob(f, "typing.cast") and len(t.args[1]) == 2:
                    g = self.grid(t.args[1][1])
        except (Unknown, Mismatch):
            g = None
        self.grids[t] = g
        return g

    def shift_of(self, t):
        """Components of the vector of a ``translate`` call, or None."""
        return self.vector(t.args[1][0] if t.args[1] else dict(t.args[2]).get("xyz"))

    def vector(self, v):
        """Components of a vector of length three, or None."""
        try:
            a = self.arr(v) if v is not None else None
        except (Unknown, Mismatch):
            return None
        if a is None or a.ndim != 1 or len(a.axes[0]) != 1 or a.axes[0][0].len != Poly.of(3):
            return None
        try:
            return [self.take(a, [const(i)]).elem for i in range(3)]
        except (Unknown, Mismatch):
            return None

    # -------------------------------------------------------------- indexing
    def index(self, t):
        b, k = t.args
        k = self.pick(k)
        if b.op == "call" and is_glob(b.args[0], "numpy.meshgrid"):
            return self.meshgrid(b, k)
        if b.op == "call" and is_glob(b.args[0], "numpy.indices"):
            sh = self.shape(b.args[1][0])
            i = self.axis(k, len(sh)) if sh is not None else None
            if i is None:
                return None
            axes = [digits(q) for q in sh]
            return Arr(axes, ("idx", axes[i]))
        a = self.need(b)
        keys = list(k.args) if k.op == "tuple" else [k]
        keys = [self.pick(x) for x in keys]
        return self.take(a, keys)

    def take(self, a, keys):
        n_real = sum(1 for x in keys if x is not NONE and not is_const(x, ...) or
                     (x.op == "const" and isinstance(cval(x), int)))
        n_real = sum(1 for x in keys if x is not NONE and not _ellipsis(x))
        if any(_ellipsis(x) for x in keys):
            i = next(i for i, x in enumerate(keys) if _ellipsis(x))
            full = mk("slice", NONE, NONE, NONE)
            keys = keys[:i] + [full] * (a.ndim - n_real) + keys[i + 1:]
        axes, m, elem, src, fancy = [], {}, a.elem, list(a.axes), []
        for x in keys:
            if x is NONE:
                axes.append(())
                continue
            if not src:
                raise Unknown()
            ax = src.pop(0)
            if x.op == "const" and isinstance(cval(x), int) and not isinstance(cval(x), bool):
                v = cval(x)
                if len(ax) == 0 and v in (0, -1):
                    continue
                if len(ax) != 1:
                    raise Unknown()
                if v < 0:
                    n = ax[0].len.const
                    if n is None:
                        elem = subst(elem, {ax[0]: (Fixed(f"{v}"),)})
                        continue
                    v += n
                m[ax[0]] = v
                continue
            if x.op == "slice":
                lo, hi, st = x.args
                if (lo, hi, st) == (NONE, NONE, NONE):
                    axes.append(ax)
                    continue
                if len(ax) == 1 and elem[0] == "cat" and elem[1] is ax[0] and st in (NONE, const(1)):
                    na, elem = self.slice_cat(ax[0], elem, lo, hi)
                    axes.append(na)
                    continue
                na, nm = self.slice_axis(ax, lo, hi, st)
                m.update(nm)
                axes.append(na)
                continue
            ia = self.arr(x)
            if ia is None or ia.ndim == 0:
                v = x
                if ia is None and self.ip.types(x) != {"int"}:
                    raise Unknown()
                if len(ax) == 1:
                    m[ax[0]] = (Fixed(v),)
                    continue
                raise Unknown()
            if ia.ndim == 1 and not fancy and is_mask(ia.elem):
                fancy.append(x)
                com, m1, m2 = self.fit(ax, ia.axes[0])
                elem = subst(elem, m1)
                axes.append((self.masked(com, subst(ia.elem, m2)),))
                continue
            if ia.ndim == 1 and not fancy and self.is_int(ia, x):
                fancy.append(x)
                ia = rename(ia)
                if len(ax) != 1:
                    # a composite axis: the index selects the whole digit tuple
                    elem = self.reindex(elem, ax, ia.elem)
                else:
                    elem = self.reindex(elem, ax, ia.elem)
                axes.append(ia.axes[0])
                continue
            raise Unknown()
        return Arr(axes + src, subst(elem, m))

    def masked(self, ax, mask):
        """The digit running over the positions of *ax* where *mask* holds."""
        k = (ax, mask)
        if k not in self.masks:
            self.masks[k] = Masked(ax, mask, len(self.masks))
        return self.masks[k]

    def is_int(self, ia, x):
        return not is_mask(ia.elem)

    def reindex(self, elem, ax, idx):
        """Replace the digit tuple *ax* by a computed position."""
        if isinstance(idx, tuple) and idx[0] == "idx":
            out = {}
            try:
                com, ma, mb = match(ax, idx[1])
            except Mismatch:
                pass
            else:
                return subst(subst(elem, ma), {v[0]: v for v in []})

        def go(e):
            if isinstance(e, tuple):
                if e and e[0] == "radix":
                    if e[1] == ax:
                        return ("pos", idx)
                    if set(e[1]) & set(ax):
                        raise Unknown()
                    return e
                if e and e[0] == "idx":
                    if e[1] == ax:
                        return idx
                    if set(e[1]) & set(ax):
                        raise Unknown()
                    return e
                if e and e[0] == "sel" and e[1] in ax:
                    raise Unknown()
                return tuple(go(x) for x in e)
            return e

        return go(elem)

    def slice_cat(self, z, elem, lo, hi):
        """A range of arrays joined end to end."""
        n = z.len
        lo = Poly({}) if lo is NONE else self.poly(lo)
        hi = n if hi is NONE else self.poly(hi)
        if lo.const is not None and lo.const < 0:
            lo = n + lo
        if hi.const is not None and hi.const < 0:
            hi = n + hi
        if not lo.nonneg(self.pos) or not (n - hi).nonneg(self.pos) or not (hi - lo).nonneg(self.pos):
            raise Unknown()
        parts, at = [], Poly({})
        for ax, x in elem[2]:
            end = at + axlen(ax)
            if (lo - end).nonneg(self.pos) or (at - hi).nonneg(self.pos):
                at = end
                continue
            a = Poly({}) if (at - lo).nonneg(self.pos) else lo - at
            b = axlen(ax) if (hi - end).nonneg(self.pos) else hi - at
            if not a.nonneg(self.pos) or not (axlen(ax) - b).nonneg(self.pos) or not (b - a).nonneg(self.pos):
                raise Unknown()
            if a.m or b != axlen(ax):
                if len(ax) != 1 or a.const is None:
                    raise Unknown()
                if x[0] == "cat" and x[1] is ax[0]:
                    ax, x = self.slice_cat(ax[0], x, self.as_term(a), self.as_term(b - axlen(ax)) if b != axlen(ax) else NONE)
                else:
                    y = Atom(b - a, ax[0].name)
                    x = subst(x, {ax[0]: (Shift(y, a.const) if a.const else Part(y, ax[0]),)})
                    ax = () if b - a == ONE else (y,)
            parts.append((ax, x))
            at = end
        if len(parts) == 1:
            return parts[0]
        y = Atom(hi - lo, "cat")
        return (y,), ("cat", y, tuple(parts))

    def as_term(self, p):
        if p.const is None:
            raise Unknown()
        return const(p.const)

    def slice_axis(self, ax, lo, hi, st):
        if st is not NONE and not is_const(st, 1):
            if is_const(st, -1) and lo is NONE and hi is NONE:
                n = tuple(Atom(a.len, "rev " + a.name) for a in ax)
                return n, {a: (Rev(x),) for a, x in zip(ax, n)}
            raise Unknown()
        if len(ax) != 1:
            raise Unknown()
        a = ax[0]
        l0 = 0 if lo is NONE else self.poly(lo).const
        if l0 == -1 and hi is NONE:
            return (), {a: (Fixed("-1"),)}
        if l0 is None or l0 < 0:
            raise Unknown()
        n = a.len - Poly.of(l0)
        if hi is not NONE:
            h = self.poly(hi)
            if h.const is not None and h.const < 0:
                n = n + h
            elif (a.len - h).nonneg(self.pos):
                n = h - Poly.of(l0)
            else:
                raise Unknown()
        x = Atom(n, f"{a.name}+{l0}" if l0 else a.name)
        return (() if n == ONE else (x,)), {a: (Shift(x, l0) if l0 else Part(x, a),)}

    def store(self, t):
        b, k, v = t.args
        k = self.pick(k)
        a = self.need(b)
        keys = list(k.args) if k.op == "tuple" else [k]
        keys = [self.pick(x) for x in keys]
        if len(keys) == a.ndim and all(x.op == "slice" and x.args == (NONE, NONE, NONE) for x in keys[:-1]):
            c = keys[-1]
            last = a.axes[-1]
            if c.op == "const" and isinstance(cval(c), int) and len(last) == 1 and last[0].len.const:
                n = last[0].len.const
                val = self.broadcast(self.need(v), a.axes[:-1])
                parts = [subst(a.elem, {last[0]: i}) for i in range(n)]
                parts[cval(c) % n] = val.elem
                return Arr(a.axes, ("sel", last[0], tuple(parts)))
            if c.op == "slice" and c.args == (NONE, NONE, NONE):
                return Arr(a.axes, self.broadcast(self.need(v), a.axes).elem)
        ia = self.arr(keys[0])
        if ia is not None and ia.ndim == 1 and is_mask(ia.elem):
            return self.store_mask(a, ia, keys, v)
        raise Unknown()

    def store_mask(self, a, ia, keys, v):
        com, m1, m2 = self.fit(a.axes[0], ia.axes[0])
        a = Arr((com,) + a.axes[1:], subst(a.elem, m1))
        mask = subst(ia.elem, m2)
        d = self.masked(com, mask)
        val = self.need(v)
        if len(keys) == a.ndim == 1 or len(keys) == 1:
            val = self.broadcast(val, ((d,),) + a.axes[1:])
            return Arr(a.axes, ("where", mask, val.elem, a.elem))
        if len(keys) == a.ndim == 2:
            c, last = keys[1], a.axes[1]
            if c.op == "const" and isinstance(cval(c), int) and len(last) == 1 and last[0].len.const:
                n = last[0].len.const
                val = self.broadcast(val, ((d,),))
                parts = [subst(a.elem, {last[0]: i}) for i in range(n)]
                i = cval(c) % n
                parts[i] = ("where", mask, val.elem, parts[i])
                return Arr(a.axes, ("sel", last[0], tuple(parts)))
        raise Unknown()

    # -------------------------------------------------------------- combining
    def align(self, arrs):
        """Broadcast the arrays against each other over shared axes."""
        n = max(a.ndim for a in arrs)
        out, used = [], {}
        for a in arrs:
            # the same digit may not stand for two different axes
            pad = (n - a.ndim)
            pos = {}
            clash = False
            for i, ax in enumerate(a.axes):
                for x in ax:
                    pos[x] = i + pad
            for x, i in pos.items():
                if used.get(x, i) != i:
                    clash = True
            if clash:
                a = rename(a)
                pos = {x: i + pad for i, ax in enumerate(a.axes) for x in ax}
            used.update(pos)
            out.append(Arr(((),) * pad + a.axes, a.elem))
        axes = [()] * n
        for i in range(n):
            for a in out:
                if a.axes[i]:
                    axes[i] = a.axes[i]
                    break
        res = []
        for _ in range(3):
            res, changed = [], False
            for a in out:
                m = {}
                for i in range(n):
                    if a.axes[i] and a.axes[i] != axes[i]:
                        com, m1, m2 = self.fit(axes[i], a.axes[i])
                        if com != axes[i]:
                            # refine the common axes and redo
                            out = [Arr(x.axes, subst(x.elem, m1)) for x in out]
                            out = [Arr([com if ax == axes[i] else ax for ax in x.axes], x.elem) for x in out]
                            axes[i] = com
                            changed = True
                            break
                        m.update(m2)
                if changed:
                    break
                res.append(Arr(axes, subst(a.elem, m)))
            if not changed:
                return res
        raise Unknown()

    def broadcast(self, a, axes):
        """*a* over exactly *axes*."""
        pad = len(axes) - a.ndim
        if pad < 0:
            raise Unknown()
        mine = ((),) * pad + a.axes
        m, elem = {}, a.elem
        for x, y in zip(mine, axes):
            if x and x != y:
                com, mx, my = self.fit(y, x)
                if com != y:
                    raise Unknown()
                m.update(my)
        return Arr(axes, subst(elem, m))

    def elementwise(self, op, arrs, extra=None):
        al = self.align(arrs)
        e = (op,) + ((extra,) if extra is not None else ()) + tuple(x.elem for x in al)
        return Arr(al[0].axes, e)

    def stack(self, arrs, axis):
        al = self.align(arrs)
        n = al[0].ndim
        axis = axis % (n + 1)
        if len(al) == 1:
            return Arr(al[0].axes[:axis] + ((),) + al[0].axes[axis:], al[0].elem)
        c = Atom(Poly.of(len(al)), "c")
        return Arr(al[0].axes[:axis] + ((c,),) + al[0].axes[axis:], ("sel", c, tuple(x.elem for x in al)))

    def flat(self, a, order):
        axes = a.axes if order == "C" else a.axes[::-1]
        return sum(axes, ())

    def reshape(self, a, shape, order):
        flat = list(self.flat(a, order))
        total = axlen(flat)
        shape = list(shape)
        neg = [i for i, s in enumerate(shape) if s == Poly.of(-1)]
        if len(neg) > 1:
            raise Unknown()
        if neg:
            q = total.div(prod(s for i, s in enumerate(shape) if i not in neg))
            if q is None:
                self.refuse(total, prod(s for i, s in enumerate(shape) if i not in neg))
            shape[neg[0]] = q
        if prod(shape) != total:
            self.refuse(total, prod(shape))
        fast_first = shape if order == "F" else shape[::-1]
        new = [() if s == ONE else (Atom(s),) for s in fast_first]
        target = sum(reversed(new), ())
        try:
            com, mf, mt = match(tuple(flat), target)
            elem = subst(a.elem, mf)
            axes = [sum((mt.get(x, (x,)) for x in ax), ()) for ax in new]
        except Mismatch:
            elem = subst(a.elem, scramble(flat, target))
            axes = new
        return Arr(axes if order == "F" else axes[::-1], elem)

    def refuse(self, p, q):
        if self.clean(p) and self.clean(q):
            raise Clash(f"{p} values do not fit {q}")
        raise Unknown()

    # -------------------------------------------------------------- calls
    def args(self, t, names):
        """Positional/keyword arguments by name."""
        out = dict(zip(names, t.args[1]))
        for k, v in t.args[2]:
            out[k] = v
        return out

    def order(self, t):
        if t is None:
            return "C"
        t = self.pick(t)
        if t.op != "const" or cval(t) not in ("C", "F"):
            raise Unknown()
        return cval(t)

    def axis(self, t, n):
        t = self.pick(t)
        try:
            v = self.poly(t).const
        except Unknown:
            v = None
        if v is None:
            raise Unknown()
        return v % n if n else v

    def call(self, t):
        f = t.args[0]
        if f.op == "glob":
            n = f.args[0]
            a = t.args[1]
            if n == "typing.cast" and len(a) == 2:
                return self.arr(a[1])
            if n in IDENT_FUNCS and a:
                return self.arr(a[0])
            if n.startswith("numpy."):
                return self.numpy(n[6:], t)
            if n.startswith("pvmodel.rotate") and a:
                x = self.need(a[0])
                return Arr(x.axes, ("at", t, tuple(("radix", d) for d in x.axes)))
            if n == "builtins.abs" and a:
                return self.elementwise("abs", [self.need(a[0])])
            if n == "builtins.range" and len(a) == 1:
                x = digits(self.poly(a[0]))
                return Arr((x,), ("idx", x))
            if n in ("builtins.max", "builtins.min", "builtins.len", "builtins.sum"):
                return self.scalar(t)
            if n in ("builtins.list", "builtins.tuple") and len(a) == 1:
                return self.arr(a[0])
            return None
        if f.op == "attr":
            b, m = f.args
            if m in IDENT_METHODS:
                return self.arr(b)
            pos = t.args[1]
            if m in ("ravel", "flatten"):
                x = self.need(b)
                o = self.order(self.args(t, ["order"]).get("order"))
                return Arr((self.flat(x, o),), x.elem)
            if m == "reshape":
                x = self.need(b)
                kw = dict(t.args[2])
                o = self.order(kw.get("order"))
                sh = self.shape_args(pos)
                return self.reshape(x, sh, o)
            if m == "transpose":
                x = self.need(b)
                if not pos:
                    return Arr(x.axes[::-1], x.elem)
                p = self.shape_args(pos)
                return Arr([x.axes[q.const] for q in p], x.elem)
            if m == "squeeze":
                return self.squeeze(t, self.need(b), pos[0] if pos else dict(t.args[2]).get("axis"))
            if m == "swapaxes":
                x = self.need(b)
                i, j = (self.axis(q, x.ndim) for q in pos)
                ax = list(x.axes)
                ax[i], ax[j] = ax[j], ax[i]
                return Arr(ax, x.elem)
            if m == "repeat":
                d = self.args(t, ["repeats", "axis"])
                return self.repeat(self.need(b), d["repeats"], d.get("axis"))
            if m in ("mean", "sum", "min", "max", "all", "any", "item"):
                return None
        return None

    def shape_args(self, pos):
        if len(pos) == 1:
            s = self.shape(pos[0])
            if s is not None:
                return s
        return [self.poly(x) for x in pos]

    def repeat(self, x, n, axis):
        if axis is None or self.pick(axis) is NONE:
            x = Arr((self.flat(x, "C"),), x.elem)
            i = 0
        else:
            i = self.axis(axis, x.ndim)
        ra = self.arr(n)
        if ra is not None and ra.ndim:
            raise Unknown()
        r = digits(self.poly(n), "rep")
        ax = list(x.axes)
        ax[i] = ax[i] + r
        return Arr(ax, x.elem)

    def numpy(self, n, t):
        A = lambda *names: self.args(t, names)  # noqa: E731
        if n in ELEMENTWISE:
            return self.elementwise(n, [self.need(x) for x in t.args[1]])
        if n == "expand_dims":
            d = A("a", "axis")
            x = self.need(d["a"])
            ax = self.pick(d["axis"])
            if ax.op == "tuple":
                axes = list(x.axes)
                m = len(axes) + len(ax.args)
                for i in sorted(self.axis(q, m) for q in ax.args):
                    axes.insert(i, ())
                return Arr(axes, x.elem)
            i = self.axis(ax, x.ndim + 1)
            return Arr(x.axes[:i] + ((),) + x.axes[i:], x.elem)
        if n in ("transpose",):
            d = A("a", "axes")
            x = self.need(d["a"])
            if d.get("axes") is None or d["axes"] is NONE:
                return Arr(x.axes[::-1], x.elem)
            return Arr([x.axes[q.const] for q in self.shape(d["axes"])], x.elem)
        if n == "moveaxis":
            d = A("a", "source", "destination")
            x = self.need(d["a"])
            i, j = self.axis(d["source"], x.ndim), self.axis(d["destination"], x.ndim)
            ax = list(x.axes)
            v = ax.pop(i)
            ax.insert(j, v)
            return Arr(ax, x.elem)
        if n == "swapaxes":
            d = A("a", "axis1", "axis2")
            x = self.need(d["a"])
            i, j = self.axis(d["axis1"], x.ndim), self.axis(d["axis2"], x.ndim)
            ax = list(x.axes)
            ax[i], ax[j] = ax[j], ax[i]
            return Arr(ax, x.elem)
        if n == "tile":
            d = A("A", "reps")
            x = self.need(d["A"])
            try:
                reps = self.shape(d["reps"])
            except Unknown:
                reps = None
            if reps is None:
                reps = [self.poly(d["reps"])]
            axes = list(x.axes)
            while len(axes) < len(reps):
                axes.insert(0, ())
            while len(reps) < len(axes):
                reps.insert(0, ONE)
            return Arr([digits(r, "rep") + ax for r, ax in zip(reps, axes)], x.elem)
        if n == "repeat":
            d = A("a", "repeats", "axis")
            return self.repeat(self.need(d["a"]), d["repeats"], d.get("axis"))
        if n == "reshape":
            d = A("a", "shape", "order")
            sh = d.get("shape", d.get("newshape"))
            s = self.shape(sh)
            return self.reshape(self.need(d["a"]), s if s is not None else [self.poly(sh)], self.order(d.get("order")))
        if n == "ravel":
            d = A("a", "order")
            x = self.need(d["a"])
            return Arr((self.flat(x, self.order(d.get("order"))),), x.elem)
        if n == "squeeze":
            d = A("a", "axis")
            return self.squeeze(t, self.need(d["a"]), d.get("axis"))
        if n == "arange":
            a = t.args[1]
            if len(a) == 1:
                x = digits(self.poly(a[0]))
                return Arr((x,), ("idx", x))
            if len(a) == 2:
                x = digits(self.poly(a[1]) - self.poly(a[0]))
                return Arr((x,), ("+", ("idx", x), ("k", a[0])))
            return None
        if n in ("linspace", "logspace", "geomspace"):
            d = A("start", "stop", "num")
            x = digits(self.poly(d["num"])) if "num" in d else None
            if x is None:
                return None
            return Arr((x,), ("at", t, (("radix", x),)))
        if n in ("sort", "unique_", "cumsum", "flip_"):
            x = self.need(t.args[1][0])
            if x.ndim != 1:
                return None
            y = tuple(Atom(a.len, a.name) for a in x.axes[0])
            return Arr((y,), ("at", t, (("radix", y),)))
        if n in ("full", "zeros", "ones", "empty"):
            d = A("shape", "fill_value") if n == "full" else A("shape", "dtype")
            s = self.shape(d["shape"])
            s = s if s is not None else [self.poly(d["shape"])]
            v = self.scalar(d["fill_value"]) if n == "full" else self.scalar(const(0.0 if n != "ones" else 1.0))
            fv = self.arr(d["fill_value"]) if n == "full" else v
            axes = [digits(q) for q in s]
            if fv is not None and fv.ndim:
                return self.broadcast(fv, axes)
            return Arr(axes, v.elem if fv is None else fv.elem)
        if n in ("zeros_like", "ones_like", "full_like", "empty_like"):
            x = self.need(t.args[1][0])
            v = const(0.0) if n in ("zeros_like", "empty_like") else const(1.0) if n == "ones_like" else t.args[1][1]
            return Arr(x.axes, ("k", v))
        if n == "broadcast_to":
            d = A("array", "shape")
            s = self.shape(d["shape"])
            if s is None:
                return None
            x = self.need(d["array"])
            axes = ((),) * (len(s) - x.ndim) + x.axes
            return Arr([ax if axlen(ax) == q else digits(q) for ax, q in zip(axes, s)], x.elem)
        if n in ("column_stack", "stack", "vstack", "hstack", "dstack", "concatenate"):
            return self.joined(n, t)
        if n == "append":
            d = A("arr", "values", "axis")
            if d.get("axis") is None or d["axis"] is NONE:
                ps = [self.need(d["arr"]), self.need(d["values"])]
                return self.concat([x if x.ndim else Arr(((),), x.elem) for x in ps], 0)
            return self.concat([self.need(d["arr"]), self.need(d["values"])], self.poly(d["axis"]).const)
        if n == "insert":
            d = A("arr", "obj", "values", "axis")
            x, v = self.need(d["arr"]), self.need(d["values"])
            i = self.poly(d["obj"]).const
            if x.ndim == 1 and v.ndim == 0:
                ln = axlen(x.axes[0]).const
                v = Arr(((),), v.elem)
                if i == 0:
                    return self.concat([v, x], 0)
                if ln is not None and i is not None and 0 <= i <= ln:
                    es = [self.take(x, [const(j)]).elem for j in range(ln)]
                    es.insert(i, v.elem)
                    z = Atom(Poly.of(ln + 1), "c")
                    return Arr(((z,),), ("sel", z, tuple(es)))
            if x.ndim == 2 and v.ndim <= 1 and d.get("axis") is not None and self.poly(d["axis"]).const in (1, -1):
                ln = axlen(x.axes[1]).const
                if ln is not None and i is not None and 0 <= i <= ln:
                    full = mk("slice", NONE, NONE, NONE)
                    es = [self.take(x, [full, const(j)]) for j in range(ln)]
                    es.insert(i, Arr((x.axes[0],), self.broadcast(v, (x.axes[0],)).elem))
                    z = Atom(Poly.of(ln + 1), "c")
                    return Arr((x.axes[0], (z,)), ("sel", z, tuple(e.elem for e in es)))
            return None
        if n == "delete":
            return None
        if n in ("flip", "flipud"):
            x = self.need(t.args[1][0])
            if x.ndim == 1 and len(t.args[1]) == 1 and not t.args[2]:
                return self.take(x, [mk("slice", NONE, NONE, const(-1))])
            return None
        if n == "indices":
            return None  # handled through index()
        if n == "outer":
            a, b = (self.need(x) for x in t.args[1][:2])
            return self.elementwise("*", [Arr((a.axes[0], ()), a.elem), rename(Arr(((), b.axes[0]), b.elem))])
        if n in ("atleast_1d",):
            x = self.need(t.args[1][0])
            return x if x.ndim else Arr(((),), x.elem)
        if n in ("float64", "int64", "float32", "ndim", "size"):
            return self.arr(t.args[1][0]) if n not in ("ndim", "size") else self.scalar(t)
        return None

    def joined(self, n, t):
        d = self.args(t, ["arrays", "axis"])
        src = self.pick(d.get("arrays", d.get("tup")) or t.args[1][0])
        if n == "stack":
            ax = d.get("axis")
            i = 0 if ax is None else self.poly(ax).const
        elif n == "column_stack":
            i = -1
        elif n == "concatenate":
            ax = d.get("axis")
            parts = self.ip.literal(src) if src.op in ("tuple", "list", "obj") else None
            if parts is None or any(x.op == "star" for x in parts):
                return None
            return self.concat([self.need(x) for x in parts], 0 if ax is None else self.poly(ax).const)
        elif n in ("vstack", "hstack"):
            parts = self.ip.literal(src) if src.op in ("tuple", "list", "obj") else None
            if parts is None or any(x.op == "star" for x in parts):
                return None
            ps = [self.need(x) for x in parts]
            if n == "vstack":
                return self.concat([x if x.ndim > 1 else Arr(((),) + x.axes, x.elem) for x in ps], 0)
            ps = [x if x.ndim else Arr(((),), x.elem) for x in ps]
            return self.concat(ps, 0 if all(x.ndim == 1 for x in ps) else 1)
        else:
            return None
        if src.op == "comp":
            c = self.need(src)
            if n == "column_stack" and c.ndim == 2:
                return Arr((c.axes[1], c.axes[0]), c.elem)
            if n == "stack":
                axes = list(c.axes)
                v = axes.pop(0)
                axes.insert(i % (len(axes) + 1), v)
                return Arr(axes, c.elem)
            return None
        parts = self.ip.literal(src) if src.op in ("tuple", "list", "obj") else None
        if parts is None or any(x.op == "star" for x in parts):
            return None
        arrs = [self.need(x) for x in parts]
        if n == "column_stack":
            if all(a.ndim == 1 for a in arrs):
                return self.stack(arrs, -1)
            # columns of 2-D pieces side by side
            cols = []
            for a in arrs:
                if a.ndim == 1:
                    cols.append(a)
                else:
                    k = axlen(a.axes[1]).const
                    if k is None or a.ndim != 2:
                        return None
                    cols += [Arr(a.axes[:1], subst(a.elem, {a.axes[1][0]: j}) if a.axes[1] else a.elem) for j in range(k)]
            return self.stack(cols, -1)
        return self.stack(arrs, i)

    def concat(self, arrs, i):
        """Arrays end to end along axis *i*: one new digit, each part over its own digit."""
        n = arrs[0].ndim
        if i is None or any(a.ndim != n for a in arrs) or not n:
            raise Unknown()
        i %= n
        lens = [axlen(a.axes[i]).const for a in arrs]
        if n == 1 and None not in lens and sum(lens) <= 8:
            es = [(a.elem if not a.axes[0] else self.take(a, [const(j)]).elem) for a, k in zip(arrs, lens) for j in range(k)]
            z = Atom(Poly.of(len(es)), "c")
            return Arr(((z,),), ("sel", z, tuple(es)))
        arrs = [arrs[0]] + [self.apart(a, arrs[0], i) for a in arrs[1:]]
        rest = [Arr(a.axes[:i] + ((),) + a.axes[i + 1:], a.elem) for a in arrs]
        if n > 1:
            rest = self.align(rest)
        z = Atom(_sum(axlen(a.axes[i]) for a in arrs), "cat")
        parts = tuple((a.axes[i], r.elem) for a, r in zip(arrs, rest))
        axes = rest[0].axes[:i] + ((z,),) + rest[0].axes[i + 1:]
        return Arr(axes, ("cat", z, parts))

    def apart(self, a, first, i):
        """Give the joined axis of *a* digits of its own when they are also used by *first*."""
        used = {x for ax in first.axes for x in ax}
        m, ax = {}, []
        for x in a.axes[i]:
            if x in used:
                y = Atom(x.len, x.name)
                y._cell = x._cell
                m[x] = (y,)
                ax.append(y)
            else:
                ax.append(x)
        return Arr(a.axes[:i] + (tuple(ax),) + a.axes[i + 1:], subst(a.elem, m))

    def meshgrid(self, b, k):
        if k.op != "const":
            return None
        kw = dict(b.args[2])
        idx = kw.get("indexing")
        xy = idx is None or is_const(idx, "xy")
        arrs = [self.need(x) for x in b.args[1]]
        if any(a.ndim != 1 for a in arrs):
            return None
        arrs = [rename(a) for a in arrs] if len({id(x) for x in arrs}) < len(arrs) else arrs
        key = ("meshgrid", b)
        axes = self.memo.get(key)
        if axes is None:
            axes = [a.axes[0] for a in arrs]
            if xy and len(axes) > 1:
                axes[0], axes[1] = axes[1], axes[0]
            self.memo[key] = axes
            self.memo[("mgarr", b)] = arrs
        return Arr(axes, self.memo[("mgarr", b)][cval(k)].elem)


def _sum(ps):
    r = Poly({})
    for p in ps:
        r = r + p
    return r


class Fixed:
    """A position that is not a digit of any axis."""

    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<{self.what}>"

    def __eq__(self, o):
        return isinstance(o, Fixed) and o.what == self.what

    def __hash__(self):
        return hash(("fixed", self.what))


class _Wrap(Atom):
    """A digit computed from another one (reversed, shifted, restricted)."""

    __slots__ = ("of", "tag")

    def __init__(self, of, tag):
        self.len, self._cell, self.of, self.tag = of.len, None, of, tag
        self.name = f"{tag}({of.name})"

    def over(self, r):
        if isinstance(r, tuple) and len(r) == 1 and isinstance(r[0], Atom):
            return _Wrap(r[0], self.tag)
        return Fixed((self.tag, r))

    def __eq__(self, o):
        return isinstance(o, _Wrap) and o.tag == self.tag and o.of == self.of

    def __hash__(self):
        return hash((self.tag, self.of))


class Masked(Atom):
    """Digit over the positions at which a condition holds; element expressions keep the digits of the whole axis."""

    __slots__ = ("ax", "mask")

    def __init__(self, ax, mask, n):
        super().__init__(Poly.of(mk("sym", f"n_mask{n}")), f"mask{n}")
        self.ax, self.mask = ax, mask


MASKS = {"==", "<", "<=", ">", ">=", "!=", "not", "~", "invert", "logical_and", "logical_or", "logical_not", "isnan", "isin", "less",
         "greater", "less_equal", "greater_equal", "equal", "not_equal", "isclose", "&", "|"}


def is_mask(e):
    return isinstance(e, tuple) and bool(e) and e[0] in MASKS and (e[0] not in ("&", "|", "~", "invert") or is_mask(e[1]))


def Rev(of):
    return _Wrap(of, "rev")


def Shift(of, n):
    return _Wrap(of, f"+{n}")


def Part(of, whole):
    return _Wrap(of, "head")


def _ellipsis(x):
    return x.op == "ellipsis" or x.op == "const" and cval(x) is Ellipsis
