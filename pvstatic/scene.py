"""Scenes for the index-function domain: symbolic base meshes with known layout."""
from __future__ import annotations

from . import extmodel as X
from .arrays import ONE, Arr, Arrays, Atom, Grid, Mismatch, Poly, Unknown, axlen, match, subst
from .canon import Canon
from .terms import DELETED, Term, const, cval, is_const, is_glob, mk, subterms

CX, CY, CZ = (mk("sym", n) for n in ("n_x", "n_y", "n_z"))
NP, NC, NL, NK, NR = (mk("sym", n) for n in ("n_points", "n_cells", "n_intervals", "n_comp", "n_res"))


def plus1(t):
    return mk("bin", "+", t, const(1))


def dims_of(axis, counts=(CX, CY, CZ)):
    d = [plus1(v) for v in counts]
    if axis is not None:
        d[axis] = const(1)
    return mk("tuple", *d)


class OrderCanon(Canon):
    """Copies of a mesh have its connectivity."""

    def __init__(self, ip, A):
        super().__init__(ip)
        self.A, self.syms = A, set()

    def of(self, t):
        while isinstance(t, Term) and t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in X.SAME_TOPO:
            t = self.A.pick(t.args[0].args[0])
        if isinstance(t, Term) and t.op == "sym":
            self.syms.add(t.args[0])
        return super().of(t)


class Scene:
    """Symbolic inputs plus the oracle that knows their layout.

    *ndim*: 1 for scalar data arrays, 2 for multi-component ones.
    """

    def __init__(self, ip, ndim=1):
        self.ip, self.ndim = ip, ndim
        self.A = Arrays(ip, self.hook, positive=(CX, CY, CZ, NP, NC, NL, NR, NK))
        self.A.counts = self.count
        self.params = {}
        self.bases = {}  # sym -> kind
        self.line_pts = Atom(Poly.of(NL) + ONE, "l")
        self.upts, self.ucells = Atom(Poly.of(NP), "p"), Atom(Poly.of(NC), "c")
        self.raw = Atom(Poly.of(mk("sym", "n_raw")), "raw")
        self.comp = Atom(Poly.of(NK), "k")
        self.pts = {}
        self.cases = None

    def canon(self, t):
        """(fingerprint, base meshes) of an order in which a line visits its points."""
        c = OrderCanon(self.ip, self.A)
        h = c.of(self.A.pick(t))
        return ("order", h, frozenset(c.syms))

    # -- inputs
    def structured(self, name, axis, counts=(CX, CY, CZ)):
        s = mk("sym", name)
        P = []
        for v, n in zip(counts, "xyz"):
            P.append((self.pts.setdefault(v, Atom(Poly.of(v) + ONE, n)),))
        if axis is not None:
            P[axis] = ()
        self.A.grids[s] = Grid(P, tuple(("at", mk("attr", s, q), tuple(("radix", p) for p in P)) for q in "xyz"), s)
        self.params[name] = {"types": ["StructuredGrid"], "attrs": {"dimensions": dims_of(axis, counts)}}
        self.bases[s] = "structured"
        return s

    def unstructured(self, name):
        s = mk("sym", name)
        self.params[name] = {"types": ["UnstructuredGrid"]}
        self.bases[s] = "unstructured"
        return s

    def line(self, name):
        s = mk("sym", name)
        self.params[name] = {"types": ["PolyData"]}
        self.bases[s] = "line"
        return s

    def number(self, *names, types=("float",)):
        for n in names:
            self.params[n] = {"types": list(types)}

    def resolution(self, name, kind):
        self.params[name] = {"types": ["int"]} if kind == "int" else {"types": ["ndarray"]}
        if kind == "int":
            self.A.positive.add(mk("sym", name))
        if kind != "int":
            self.bases[mk("sym", name)] = "res"

    def data(self, name, mesh, which="cell_data"):
        """A data array with the rows of structured *mesh*."""
        self.params[name] = {"types": ["ndarray"]}
        self.bases[mk("sym", name)] = ("data", mk("sym", mesh), which)

    def vector(self, *names):
        for n in names:
            self.params[n] = {"types": ["ndarray"]}
            self.bases[mk("sym", n)] = "vec3"

    def matrix(self, name, *shape):
        self.params[name] = {"types": ["ndarray"]}
        self.bases[mk("sym", name)] = ("mat",) + shape

    def points(self, *names):
        """Arrays with the points of a line."""
        for n in names:
            self.params[n] = {"types": ["ndarray"]}
            self.bases[mk("sym", n)] = "points"

    def surface(self, *names):
        """Callables giving one coordinate per point of the base mesh."""
        for n in names:
            self.params[n] = {"types": ["callable"]}
            self.bases[mk("sym", n)] = "surface"

    def base_points(self):
        for s, k in self.bases.items():
            if k == "structured":
                return self.A.grid(s).point_digits()
            if k == "unstructured":
                return (self.upts,)
            if k == "line":
                return (self.raw,)
        return None

    # -- oracle
    def root(self, t):
        """The symbolic base a mesh is a copy of (same points, cells and data)."""
        n = 0
        while n < 50:
            n += 1
            t = self.A.pick(t)
            if t in self.bases:
                return t
            if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in X.SAME_TOPO | {"cast_to_unstructured_grid"}:
                t = t.args[0].args[0]
            elif t.op == "call" and is_glob(t.args[0], "typing.cast") and len(t.args[1]) == 2:
                t = t.args[1][1]
            else:
                return None
        return None

    def source(self, t):
        """*t* without the copies in between."""
        t = self.A.pick(t)
        while t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in X.SAME_TOPO - X.MOVES:
            t = self.A.pick(t.args[0].args[0])
        return t

    def made(self, t):
        """The points a polyline was made from in the order it visits them, or None."""
        t = self.source(t)
        if t.op == "call" and any(is_glob(t.args[0], n) for n in ("pyvista.MultipleLines", "pyvista.lines_from_points")) and t.args[1]:
            return t.args[1][0]
        return None

    def made_order(self, k):
        """The polyline whose own visiting order *k* is, or None."""
        k = self.A.pick(k)
        own = {self.source(self.unstripped(x.args[0])) for x in subterms(k)
               if x.op == "attr" and x.args[1] in ("lines", "irregular_faces", "regular_faces", "faces", "connectivity")}
        if len(own) != 1:
            return None
        m = own.pop()
        return m if self.made(m) is not None and self.plain_order(k) else None

    def unstripped(self, t):
        t = self.A.pick(t)
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "strip":
            return t.args[0].args[0]
        return t

    def plain_order(self, k):
        """The connectivity after its count, nothing else done to it."""
        if k.op == "index" and k.args[1].op == "slice":
            lo, hi, st = k.args[1].args
            b = self.A.pick(k.args[0])
            return is_const(lo, 1) and is_const(st, None) and b.op == "attr" and b.args[1] == "lines"
        return False

    def is_line(self, t):
        ts = self.ip.types(t)
        if ts is None and self.assume_line(t):
            return True
        return ts is not None and ts <= {"PolyData"} and any(k == "line" for k in self.bases.values())

    def assume_line(self, t):
        """An element of a list the package made out of a line (its pieces)."""
        while t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in X.SAME_TOPO:
            t = t.args[0].args[0]
        return (t.op == "index" and t.args[0].op == "obj" and t.args[0].args[0] == "list" and t.args[1].op == "const"
                and any(k == "line" for k in self.bases.values()))

    def count(self, b, n):
        r = self.root(b)
        if r is not None and self.bases[r] == "unstructured":
            return Poly.of(NC if n == "n_cells" else NP)
        p = self.made(b)
        if p is not None:
            a = self.A.arr(p)
            if a is None or a.ndim != 2:
                return None
            return axlen(a.axes[0]) if n == "n_points" else ONE
        if self.is_line(b):
            return Poly.of(NL) if n == "n_cells" else self.raw.len
        c = self.A.pick(b)
        if c.op == "call" and is_glob(c.args[0], "pyvista.UnstructuredGrid") and len(c.args[1]) == 3:
            a = self.A.arr(c.args[1][1 if n == "n_cells" else 2])
            if a is not None and a.axes:
                return axlen(a.axes[0])
        return None

    def rows(self, t, digits):
        idx = (("radix", digits),)
        if self.ndim == 1:
            return Arr((digits,), ("at", t, idx))
        return Arr((digits, (self.comp,)), ("at", t, idx + (("radix", (self.comp,)),)))

    def hook(self, A, t):
        if t in self.bases and self.bases[t] == "res":
            d = (Atom(Poly.of(NR) + ONE, "r"),)
            return Arr((d,), ("at", t, (("radix", d),)))
        if t.op == "call" and self.bases.get(t.args[0]) == "surface":
            d = self.base_points()
            return Arr((d,), ("at", t.args[0], (("radix", d),)))
        if self.bases.get(t) == "points":
            c = Atom(Poly.of(3), "c")
            return Arr(((self.line_pts,), (c,)), ("at", t, (("radix", (self.line_pts,)), ("radix", (c,)))))
        if self.bases.get(t) == "vec3":
            d = (Atom(Poly.of(3), "c"),)
            return Arr((d,), ("at", t, (("radix", d),)))
        if t in self.bases and self.bases[t][0] == "mat":
            d = tuple((Atom(Poly.of(k), n),) for k, n in zip(self.bases[t][1:], "rc"))
            return Arr(d, ("at", t, tuple(("radix", x) for x in d)))
        if t in self.bases and self.bases[t][0] == "data":
            _, m, which = self.bases[t]
            g = A.grid(m)
            return self.rows(t, g.cell_digits() if which == "cell_data" else g.point_digits())
        if t.op == "attr" and t.args[1] == "points":
            p = self.made(t.args[0])
            if p is not None:
                return A.arr(p)
        if t.op == "attr" and t.args[1] in ("points", "celltypes"):
            r = self.root(t.args[0])
            k = self.bases.get(r)
            if k == "unstructured":
                if t.args[1] == "celltypes":
                    return Arr(((self.ucells,),), ("at", mk("attr", r, "celltypes"), (("radix", (self.ucells,)),)))
                c = Atom(Poly.of(3), "c")
                return Arr(((self.upts,), (c,)), ("at", mk("attr", self.source(t.args[0]), "points"), (("radix", (self.upts,)), ("radix", (c,)))))
            if self.is_line(t.args[0]) and t.args[1] == "points":
                c = Atom(Poly.of(3), "c")
                return Arr(((self.raw,), (c,)), ("at", mk("attr", self.source(t.args[0]), "points"),
                                                 (("radix", (self.raw,)), ("radix", (c,)))))
        if t.op == "index":
            b, k = t.args
            if b.op == "attr" and b.args[1] in ("cell_data", "point_data") and k.op in ("const", "key"):
                # written since? then it is not the base's own array
                r = self.root(b.args[0])
                cell = b.args[1] == "cell_data"
                if self.bases.get(r) == "structured":
                    g = A.grid(r)
                    return self.rows(t, g.cell_digits() if cell else g.point_digits())
                if self.bases.get(r) == "unstructured":
                    return self.rows(t, (self.ucells,) if cell else (self.upts,))
                if self.is_line(b.args[0]):
                    return self.rows(t, (self.line_pts.cell,) if cell else (self.raw,))
            elif self.is_order(k) and self.made_order(k) is not None:
                b = A.pick(b)
                if b.op == "attr" and b.args[1] == "points" and self.source(b.args[0]) is self.made_order(k):
                    return A.arr(b)
            elif self.is_order(k):
                # the points of a line in the order in which it visits them
                inner = A.pick(b)
                full = inner
                while inner.op in ("store", "dup"):
                    inner = A.pick(inner.args[0])
                a = A.arr(b)
                if a is not None and a.ndim == 2 and a.axes[0] == (self.raw,):
                    order = self.canon(k)
                    return Arr(((self.line_pts,), a.axes[1]), self.visit(a.elem, order))
                if inner.op == "index" and inner.args[0].op == "attr" and inner.args[0].args[1] == "point_data" \
                        and self.is_line(inner.args[0].args[0]):
                    return self.rows(("via", full, self.canon(k)), (self.line_pts,))
        return None

    def visit(self, e, order):
        """*e* over the points of a line, in visiting order."""
        if isinstance(e, tuple):
            if e and e[0] == "at" and any(i == ("radix", (self.raw,)) for i in e[2]):
                return ("at", ("via", e[1], order), tuple(("radix", (self.line_pts,)) if i == ("radix", (self.raw,)) else i
                                                          for i in e[2]))
            return tuple(self.visit(x, order) for x in e)
        return (self.line_pts,)[0] if e is self.raw else e

    def is_order(self, k):
        """An index array taken from the line's own connectivity."""
        k = self.A.pick(k)
        if k.op in ("const", "slice", "tuple"):
            return False
        return any(x.op == "attr" and x.args[1] in ("lines", "irregular_faces", "regular_faces", "faces", "connectivity")
                   for x in subterms(k))

    def assume(self, c):
        if c.op == "isinst" and self.ip.types(c.args[0]) is None and self.assume_line(c.args[0]):
            return "PolyData" in X.expand_types(c.args[1])
        if c.op == "truth" and c.args[0].op == "attr" and c.args[0].args[1] in ("cell_data", "point_data"):
            return True  # the meshes of a scene carry data
        if c.op == "truth" and c.args[0].op == "attr" and c.args[0].args[1] == "n_lines" and self.made(c.args[0].args[0]) is not None:
            return True
        # the scenes describe inputs that fit together
        if c.op == "cmp" and c.args[0] == "==" and all(self.from_shape(x) for x in c.args[1:3]):
            return True
        r = self.A.assume(c)
        return self.in_case(c) if r is None and self.cases is not None else r

    def in_case(self, c):
        """Decide a comparison of numbers by what is known in the case."""
        from .algebra import Value
        v = Value(self.A, self.cases)
        try:
            if c.op == "cmp" and c.args[0] in ("==", "<", "<="):
                return v.cond((c.args[0], ("k", c.args[1]), ("k", c.args[2])))
            if c.op == "truth" and c.args[0].op in ("sym", "bin", "un", "call"):
                s = self.cases.sign(v.term(c.args[0]))
                return {"+": True, "-": True, "0": False}.get(s)
        except (Unknown, Mismatch):
            pass
        return None

    def from_shape(self, t):
        return t.op == "attr" and t.args[1] in ("shape",)

    def run(self, code, **extra):
        ps = dict(self.params)
        ps.update(extra)
        ip = self.ip
        ip.track_coords, ip.type_hook = True, (lambda t: frozenset({"PolyData"}) if self.assume_line(t) else None)
        try:
            r = ip.run(code, ps, assume=self.assume)
        finally:
            ip.track_coords, ip.type_hook = False, None
        self.r = r
        if r.final is not None:
            self.ip.st = r.final
            self.ip.assume = self.assume
        return r

    # -- results
    def clash(self, t):
        """Why numpy certainly refuses to build *t* (an array or a mesh), if it does."""
        t = self.A.pick(t)
        if t in self.A.clashes:
            return self.A.clashes[t]
        if t.op == "call" and (is_glob(t.args[0], "pyvista.StructuredGrid") or is_glob(t.args[0], "pyvista.UnstructuredGrid")):
            for x in t.args[1]:
                w = self.clash(x) if self.A.arr(x) is None else None
                if w:
                    return w
        return None

    def entries(self, mesh, which):
        """(key term, value) of the arrays written for every array of a base."""
        cont = mk("attr", mesh, which)
        out = []
        for k, v in self.r.final.heap.items():
            if k[0] in ("item", "gen") and k[1] is cont and k[2].op == "key" and v is not DELETED:
                out.append((k[2], v.args[0] if k[0] == "gen" else v))
        return out

    def others(self, mesh, which):
        """Arrays written under names that are not known."""
        cont = mk("attr", mesh, which)
        return any(k[0] in ("item", "gen") and k[1] is cont and k[2].op not in ("key", "const") and v is not DELETED
                   for k, v in self.r.final.heap.items())

    def item(self, mesh, which, name):
        return self.ip.getitem(mk("attr", mesh, which), const(name), None)


def place(arr, digits):
    """Element expression of *arr* over the given digits of its first axis; Mismatch if lengths differ."""
    com, ma, mb = match(arr.axes[0], digits)
    return subst(arr.elem, ma), mb
