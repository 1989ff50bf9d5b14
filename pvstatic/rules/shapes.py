"""Where parametric shapes and extrusions put their points, and how they are subdivided."""
from __future__ import annotations

from ..algebra import NF, ONE, ZERO, Cases, Value
from ..arrays import Mismatch, Unknown, axlen
from ..report import Broken
from ..scene import CX, CY, CZ, NL, NR, Scene
from ..seq import Fractions, Sequences
from ..terms import const, is_const, is_glob, mk
from .layout import ctor, undecided

CURV = {None: "0", "constant": "0", "log": "+", "log_r": "-"}
PLANE_AXES = {"xy": (0, 1), "yx": (1, 0), "xz": (0, 2), "zx": (2, 0), "yz": (1, 2), "zy": (2, 1)}


class Blocks:
    """Structured blocks a mesh is put together from, with the shifts applied afterwards."""

    def __init__(self, sc, whole=False):
        self.sc, self.whole = sc, whole

    def of(self, t, shift=()):
        t = self.sc.A.pick(t)
        h = self.sc.ip.st.heap
        pts = mk("attr", t, "points")
        moved = h.get(("attr", t, "points"), h.get(("arr", pts)))
        if moved is not None and moved is not pts:
            return self.points(moved, shift)
        return self.built(t, shift)

    def points(self, p, shift):
        """Blocks whose points are the value *p*."""
        p = self.sc.A.pick(p)
        if p.op == "attr" and p.args[1] == "points":
            return self.built(self.sc.A.pick(p.args[0]), shift)
        if p.op == "bin" and p.args[0] == "+":
            for x, v in ((p.args[1], p.args[2]), (p.args[2], p.args[1])):
                w = self.sc.A.vector(v)
                if w is not None:
                    return self.points(x, shift + (w,))
        if p.op == "call" and is_glob(p.args[0], "pvmodel.clean"):
            return self.points(p.args[1][0], shift)
        raise Unknown()

    def built(self, t, shift):
        sc = self.sc
        if self.whole and t.op == "call" and is_glob(t.args[0], "pyvista.UnstructuredGrid"):
            return [(t, shift)]
        g = sc.A.grid(t) if not self.whole else None
        if g is not None:
            return [(g.dims, [add(c, shift, i) for i, c in enumerate(g.coords)])]
        if t.op == "call" and t.args[0].op == "attr":
            b, n = t.args[0].args
            if n == "translate":
                v = sc.A.shift_of(t)
                if v is None:
                    raise Unknown()
                return self.of(b, shift + (v,))
            if n in ("clean", "cast_to_unstructured_grid", "copy"):
                return self.of(b, shift)
            if n == "merge" and len(t.args[1]) == 1:
                return self.of(b, shift) + self.of(t.args[1][0], shift)
        if t.op == "call" and is_glob(t.args[0], "operator.+") and len(t.args[1]) == 2:
            return [x for p in t.args[1] for x in self.of(p, shift)]
        if t.op == "bin" and t.args[0] == "+":
            return [x for p in t.args[1:3] for x in self.of(p, shift)]
        if t.op == "call" and (is_glob(t.args[0], "pyvista.merge") or is_glob(t.args[0], "pvgridder.merge")) and t.args[1]:
            lit = sc.ip.literal(t.args[1][0])
            if lit and not any(x.op == "star" for x in lit):
                return [x for p in lit for x in self.of(p, shift)]
        raise Unknown()


def add(e, shift, i):
    for v in shift:
        e = ("+", e, v[i])
    return e


def num(x):
    return NF.of(("k", mk("sym", x))) if isinstance(x, str) else NF.of(x)


class Shape:
    """One call of a shape function and what it should give.

    dirs: fraction name -> (resolution argument, method argument); blocks: per block the axis of each fraction and the
    coordinates as a function of the fractions.
    """

    def __init__(self, name, args, dirs, blocks, numbers, vectors=(), mats=(), kind="grid"):
        self.name, self.args, self.dirs, self.blocks = name, args, dirs, blocks
        self.numbers, self.vectors, self.mats, self.kind = numbers, vectors, mats, kind


def trig(v):
    c = lambda a: v.func("cos", v.func("deg2rad", a))  # noqa: E731
    s = lambda a: v.func("sin", v.func("deg2rad", a))  # noqa: E731
    return c, s


def ring(v, p, c):
    r = num("ri") + p["r"] * (num("ro") - num("ri"))
    a = num("t0") + p["t"] * (num("t1") - num("t0"))
    cos, sin = trig(v)
    return [r * cos(a) + c[0], r * sin(a) + c[1], c[2]]


def full_ring(v, p, c):
    r = num("ri") + p["r"] * (num("ro") - num("ri"))
    cos, sin = trig(v)
    a = p["t"] * NF.of(360)
    return [r * cos(a) + c[0], r * sin(a) + c[1], c[2]]


def tall(f):
    def g(v, p, c):
        x, y, z = f(v, p, c)
        return [x, y, z + num("h") * (p["z"] - NF.of(0.5))]
    return g


def rect(v, p, c):
    return [num("dx") * p["x"] + c[0], num("dy") * p["y"] + c[1], c[2]]


def square(v, p, c):
    return [num("dx") * p["x"] + c[0], num("dx") * p["y"] + c[1], c[2]]


def quad(n):
    def f(v, p, c):
        q = lambda i, k: v.elem(("at", mk("sym", "pts"), (("int", i), ("int", k)))) if k < n else ZERO  # noqa: E731
        out = []
        for k in range(3):
            a = q(0, k) + p["x"] * (q(1, k) - q(0, k))
            b = q(3, k) + p["x"] * (q(2, k) - q(3, k))
            out.append(a + p["y"] * (b - a) + c[k])
        return out
    return f


def corner(which, inner, dy="dy"):
    """One half of a quarter of a rectangle with a circular hole (inner='arc') or of a disk with a rectangular one."""
    def f(v, p, c):
        cos, sin = trig(v)
        u = p[which]
        if which in ("y", "ty"):
            box = [num("dx"), num(dy) * (ONE - u)]
            a = NF.of(45) * (ONE - u)
        else:
            box = [num("dx") * (ONE - u), num(dy)]
            a = NF.of(45) + NF.of(45) * u
        arc = [num("radius") * cos(a), num("radius") * sin(a)]
        lo, hi = (arc, box) if inner == "arc" else (box, arc)
        return [lo[k] + p["r"] * (hi[k] - lo[k]) + c[k] for k in (0, 1)] + [c[2]]
    return f


RT = {"r": ("r_resolution", "r_method"), "t": ("theta_resolution", "theta_method")}
RTZ = {**RT, "z": ("z_resolution", "z_method")}
XY = {"x": ("x_resolution", "x_method"), "y": ("y_resolution", "y_method")}
TR = ("t", "r", None)

SHAPES = [
    Shape("AnnularSector", "ri, ro, t0, t1", RT, [(TR, ring)], ("ri", "ro", "t0", "t1")),
    Shape("Annulus", "ri, ro", RT, [(TR, full_ring)], ("ri", "ro")),
    Shape("CylindricalShellSector", "ri, ro, t0, t1, h", RTZ, [(("t", "r", "z"), tall(ring))], ("ri", "ro", "t0", "t1", "h")),
    Shape("CylindricalShell", "ri, ro, h", RTZ, [(("t", "r", "z"), tall(full_ring))], ("ri", "ro", "h")),
    Shape("Rectangle", "dx, dy", XY, [(("x", "y", None), rect)], ("dx", "dy")),
    Shape("Quadrilateral", "pts", XY, [(("x", "y", None), quad(2))], (), mats=(("pts", 4, 2),)),
    Shape("Quadrilateral", "pts", XY, [(("x", "y", None), quad(3))], (), mats=(("pts", 4, 3),)),
    Shape("Square", "dx", {"x": ("resolution", "method"), "y": ("resolution", "method")}, [(("x", "y", None), square)], ("dx",)),
    Shape("RectangleSector", "dx, dy, radius", {**XY, "r": RT["r"]},
          [(("y", "r", None), corner("y", "box")), (("x", "r", None), corner("x", "box"))], ("dx", "dy", "radius")),
    Shape("SquareSector", "dx, radius", {"x": XY["x"], "y": XY["x"], "r": RT["r"]},
          [(("y", "r", None), corner("y", "box", "dx")), (("x", "r", None), corner("x", "box", "dx"))], ("dx", "radius")),
    Shape("SectorRectangle", "radius, dx, dy", {"ty": RT["t"], "tx": RT["t"], "r": RT["r"]},
          [(("ty", "r", None), corner("ty", "arc")), (("tx", "r", None), corner("tx", "arc"))], ("dx", "dy", "radius")),
    Shape("SectorSquare", "radius, dx", {"ty": RT["t"], "tx": RT["t"], "r": RT["r"]},
          [(("ty", "r", None), corner("ty", "arc", "dx")), (("tx", "r", None), corner("tx", "arc", "dx"))], ("dx", "radius")),
    Shape("Sector", "radius, t0, t1", {"t": ("resolution", "method")}, [], ("radius", "t0", "t1"), kind="fan"),
    Shape("Circle", "radius", {"t": ("resolution", "method")}, [], ("radius",), kind="fan"),
]


def settings(tier):
    """(methods per direction, kind of resolution, center)"""
    m = ("constant", "log", "log_r")
    out = []
    for i in range(3):
        out.append(([m[(i + k) % 3] for k in range(3)], "int", "c" if i == 1 else None))
    out.append(([None] * 3, "int", "c"))
    out.append(([None] * 3, "int", "c2"))
    out.append(([None] * 3, "none", None))
    out.append(([None] * 3, "array", None))
    return out


def bound(vals, signs, least, s, n, low):
    """A resolution *s* of at least one, zero or negative."""
    if low == "zero":
        x = ZERO
    elif low:
        x = -NF.of(("n", n))
        signs[("n", n)] = "+"
    else:
        x = NF.of(("n", n))
        least[("n", n)] = 1
    vals[s] = vals[("k", s)] = x


class Setting:
    """Arguments of one call: code, allowed resolution names, expected curvature and length per direction."""

    def __init__(self, sc, shape, methods, kind, center):
        pairs = []
        for q in shape.dirs.values():
            if q not in pairs:
                pairs.append(q)
        parts, self.want, self.free = [shape.args], {}, set()
        for i, q in enumerate(pairs):
            res, meth = q
            n = f"n{i}"
            if kind != "none":
                parts.append(f"{res}={n}")
                sc.resolution(n, kind)
                self.free.add(n)
            if methods[i] is not None:
                parts.append(f"{meth}={methods[i]!r}")
            for name, p in shape.dirs.items():
                if p == q:
                    self.want[name] = (n if kind != "none" else None, CURV[methods[i]] if kind != "array" else n)
        if center:
            sc.matrix(center, 2 if center == "c2" else 3)
            parts.append(f"center={center}")
        self.code = f"m = {shape.name}({', '.join(parts)})\n"
        self.kind = kind
        self.center = [NF.of(("at", mk("sym", center), (("int", k),))) if center and (k < 2 or center == "c") else ZERO for k in range(3)]

    def cases(self, low=False):
        vals, least, signs = {}, {}, {}
        for n in self.free:
            s = mk("sym", n)
            if self.kind == "int":
                bound(vals, signs, least, s, n, low)
        return Cases(signs, vals, least)

    def label(self, shape, methods, low=False):
        what = {"int": "integer resolutions" if not low else f"{low} resolutions", "none": "default resolution",
                "array": "explicit positions"}[self.kind]
        used = [m or "default" for m in methods[:len({q for q in shape.dirs.values()})]]
        return f"{shape.name}({what}, methods {'/'.join(used)})"


def fraction_names(st, dims, names, low):
    """Fraction name -> symbol expected in the coordinates of a block."""
    p = {}
    for d, nm in zip(dims, names):
        if nm is None:
            if d:
                raise Mismatch()
            continue
        n, c = st.want[nm]
        if len(d) != 1:
            raise Unknown()
        p[nm] = NF.of(("P", d[0], c, True))
    return p


def run_scene(rep, ip, shape, methods, kind, center, low=False):
    sc = Scene(ip)
    sc.number(*shape.numbers)
    for m in shape.mats:
        sc.matrix(*m)
    st = Setting(sc, shape, methods, kind, center)
    if low:
        sc.A.positive -= {mk("sym", n) for n in st.free}
        sc.cases = st.cases(low)
    r = sc.run(st.code)
    rep.saw(r)
    return sc, st, r


def blocks_of(sc, r):
    try:
        return Blocks(sc).of(r.env["m"])
    except (Unknown, KeyError):
        return None


def run_shapes(rep, ip, tier):
    """Builds every parametric shape with symbolic dimensions, resolutions, methods and center, reads the coordinates of
    its points as exact expressions and compares them with the closed form of the shape."""
    rep.rule("coordinates equal the closed form of the shape at the fraction of each direction, plus the center")
    n = 0
    for shape in SHAPES:
        for methods, kind, center in settings(tier):
            if center == "c2" and "h" in shape.numbers:
                continue  # a volume needs three
            n += one_shape(rep, ip, shape, methods, kind, center, "geometry")
    if not n:
        raise Broken("no shape could be followed")
    rep.note = f"{n} shapes followed"


def one_shape(rep, ip, shape, methods, kind, center, what):
    sc, st, r = run_scene(rep, ip, shape, methods, kind, center)
    label, key = st.label(shape, methods), shape.name
    if r.final is None:
        rep.skip(f"{key}:{what}")
        return 0
    if shape.kind == "fan":
        return fan(rep, sc, st, r, shape, label, key, what)
    bs = blocks_of(sc, r)
    if bs is None:
        undecided(rep, sc, r.env.get("m"), f"{key}:{what}", label)
        return 0
    if len(bs) != len(shape.blocks):
        rep.bad(f"{key}:{what}", label, f"{label}: the mesh is made of {len(bs)} blocks instead of {len(shape.blocks)}")
        return 0
    v = Fractions(sc.A, st.cases(), st.free)
    for i, ((dims, coords), (names, form)) in enumerate(zip(bs, shape.blocks)):
        block(rep, v, st, dims, coords, names, form, label + (f", block {i}" if len(bs) > 1 else ""), key, what)
    return 1


def block(rep, v, st, dims, coords, names, form, label, key, what):
    try:
        p = fraction_names(st, dims, names, False)
    except Mismatch:
        rep.bad(f"{key}:{what}", label, f"{label}: the grid runs along another axis")
        return
    except Unknown:
        rep.skip(f"{key}:{what}")
        return
    for k, want in enumerate(form(v, p, st.center)):
        try:
            ok, got = v.verdict(v.paths(coords[k]), lambda x: x == want)
        except (Unknown, Mismatch):
            rep.skip(f"{key}:{what}")
            continue
        if ok is None:
            rep.skip(f"{key}:{what}")
            continue
        rep.check(ok, f"{key}:{what}", label, f"{label}: {'xyz'[k]} is {got} instead of {want}")


def fan_points(sc, r):
    """(mesh, shifts, digits of the arc, center point, points of the arc, digits of the components) of triangles around
    a center point, or None."""
    try:
        t, shift = Blocks(sc, whole=True).of(r.env["m"])[0]
    except Unknown:
        return None
    pts = sc.A.arr(t.args[1][-1]) if t.op == "call" and is_glob(t.args[0], "pyvista.UnstructuredGrid") and t.args[1] else None
    if pts is None or pts.ndim != 2 or pts.elem[0] != "cat" or len(pts.elem[2]) != 2:
        return None
    (a0, e0), (a1, e1) = pts.elem[2]
    if a0 != () or len(a1) != 1:
        return None
    return t, shift, a1, e0, e1, pts.axes[1]


def fan(rep, sc, st, r, shape, label, key, what):
    got = fan_points(sc, r)
    if got is None:
        rep.skip(f"{key}:{what}")
        return 0
    t, shift, a1, e0, e1, col = got
    v = Fractions(sc.A, st.cases(), st.free)
    n, c = st.want["t"]
    P = NF.of(("P", a1[0], c, True))
    cos, sin = trig(v)
    ang = num("t0") + P * (num("t1") - num("t0")) if shape.name == "Sector" else P * NF.of(360)
    want = [num("radius") * cos(ang), num("radius") * sin(ang), ZERO]
    from ..arrays import subst
    for k in range(3):
        one = {col[0]: k} if len(col) == 1 else {}
        for e, w in ((e0, ZERO), (e1, want[k])):
            try:
                got = v.elem(add(subst(e, one), shift, k))
            except (Unknown, Mismatch):
                rep.skip(f"{key}:{what}")
                continue
            rep.check(got == w + st.center[k], f"{key}:{what}", label, f"{label}: {'xyz'[k]} is {got} instead of {w + st.center[k]}")
    fan_cells(rep, sc, t, a1, label, key)
    return 1


def fan_cells(rep, sc, t, arc, label, key):
    """Triangle i joins the center (point 0) with points i and i+1 of the arc."""
    d = t.args[1][0]
    cells = None
    if len(t.args[1]) == 2 and d.op == "dict" and len(d.args) == 1:
        k, c = d.args[0]
        cells = sc.A.arr(c) if is_const(k, 5) else None
    if cells is None or cells.ndim != 2 or len(cells.axes[0]) > 1:
        rep.skip(f"{key}:cells")
        return
    from ..arrays import subst
    from .layout import lin
    n, col = cells.axes[0], cells.axes[1]
    ok = axlen(n) == axlen(arc) - axlen(()) and axlen(col).const == 3
    try:
        for k, (co, off) in enumerate(((0, 0), (1, 1), (1, 2))):
            c, o = lin(sc, num_idx(subst(cells.elem, {col[0]: k})), n)
            ok = ok and (c == co or not n) and o.const == off
    except Mismatch:
        ok = False
    except Unknown:
        rep.skip(f"{key}:cells")
        return
    rep.check(ok, f"{key}:cells", label, f"{label}: triangles do not join the center with consecutive points of the arc")


def num_idx(e):
    """Integral constants written as floats."""
    from ..terms import cval
    if isinstance(e, tuple):
        if e and e[0] == "k" and is_const(e[1]) and isinstance(cval(e[1]), float) and cval(e[1]).is_integer():
            return ("k", const(int(cval(e[1]))))
        return tuple(num_idx(x) for x in e)
    return e


# ---------------------------------------------------------------- extrusion between two lines or surfaces
def case_of(kind, low=False):
    s = mk("sym", "n")
    if kind != "int":
        return Cases()
    vals, signs, least = {}, {}, {}
    bound(vals, signs, least, s, "n", low)
    return Cases(signs, vals, least)


def extrusions(tier):
    """(label, key, scene builder, code prefix, along axis or None, kind of base)"""
    for ax in (0, 1, 2):
        yield (f"Volume(structured, axis {ax})", "Volume:structured", lambda sc, ax=ax: (sc.structured("a", ax), sc.structured("b", ax)),
               "Volume(a, b", ax, "structured")
    yield "Volume(unstructured)", "Volume:unstructured", lambda sc: (sc.unstructured("a"), sc.unstructured("b")), "Volume(a, b", None, "unstructured"
    for pl, (la, al) in PLANE_AXES.items():
        yield (f"StructuredSurface({pl})", "StructuredSurface:lines", lambda sc: (sc.line("a"), sc.line("b")),
               f"StructuredSurface(a, b, {pl!r}", (la, al), "line")
        yield (f"StructuredSurface(arrays, {pl})", "StructuredSurface:arrays", lambda sc: (sc.points("a"), sc.points("b")),
               f"StructuredSurface(a, b, {pl!r}", (la, al), "array")


def options(tier):
    for kind in ("int", "none", "array"):
        for m in (None, "constant", "log", "log_r"):
            if kind == "int" or m is None:
                yield kind, m


def extruded(rep, ip, fill, call, kind, method, low=False):
    sc = Scene(ip)
    fill(sc)
    if kind != "none":
        sc.resolution("n", kind)
    code = "m = " + call + (", resolution=n" if kind != "none" else "") + (f", method={method!r}" if method else "") + ")"
    if low:
        sc.A.positive.discard(mk("sym", "n"))
        sc.cases = case_of(kind, low)
    r = sc.run(code)
    rep.saw(r)
    return sc, r


def grid_of(sc, r, along, base):
    """(digit of the extrusion, [coordinates], digits of the base point) or None."""
    if r.final is None:
        return None
    t = r.env["m"]
    if base == "unstructured":
        m = ctor(sc, t)
        if m is None:
            return None
        full = mk("slice", const(None), const(None), const(None))
        es = [sc.A.arr(mk("index", m.args[1][2], mk("tuple", full, const(i)))) for i in range(3)]
        if any(a is None or a.ndim != 1 or len(a.axes[0]) != 2 for a in es):
            return None
        d = es[0].axes[0]
        from ..arrays import subst
        return d[0], [subst(a.elem, dict(zip(a.axes[0], ((x,) for x in d)))) for a in es], (d[1],), (d[0],)
    g = sc.A.grid(t)
    if g is None:
        return None
    ax = along if base == "structured" else along[1]
    if len(g.dims[ax]) != 1:
        return None
    if base == "structured":
        ds = tuple(("radix", q if i != ax else ()) for i, q in enumerate(g.dims))
    else:
        ds = g.dims[along[0]]
    return g.dims[ax][0], g.coords, ds, g.dims


def corner_points(sc, base, name, i, ds, coords):
    """The symbol of coordinate *i* of the base point of mesh *name*."""
    s = mk("sym", name)
    if base == "structured":
        return ("at", mk("attr", s, "xyz"[i]), ds)
    if base == "unstructured":
        return ("at", mk("attr", s, "points"), (("radix", ds), ("int", i)))
    if base == "array":
        return ("at", s, (("radix", ds), ("int", i)))
    orders = {x[1] for x in leaves(coords) if isinstance(x[1], tuple) and x[1][0] == "via" and x[1][1] is mk("attr", s, "points")}
    for via in orders:
        if via[2][2] == frozenset({name}):
            return ("at", via, (("radix", ds), ("int", i)))
    return None


def leaves(e):
    stack = [e]
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, list)):
            if x and x[0] == "at":
                yield x
            stack.extend(x)


def run_straight(rep, ip, tier):
    """Extrudes symbolic lines and surfaces, reads the coordinates of every generated point as exact expressions and
    compares them with the straight segment between the matching points of the two ends."""
    rep.rule("every generated point is on the segment between a point of the first and the same point of the second line/surface")
    rep.rule("all coordinates of a point use the fraction of its layer; the first layer is the first surface, the last one the second")
    rep.rule("the plane/flat axis decides which grid axes the line and the extrusion run along")
    n = 0
    for label0, key, fill, call, along, base in extrusions(tier):
        for kind, method in options(tier):
            label = f"{label0}, {kind} resolution, method {method or 'default'}"
            sc, r = extruded(rep, ip, fill, call, kind, method)
            got = grid_of(sc, r, along, base)
            if got is None:
                undecided(rep, sc, r.env.get("m"), key, label)
                continue
            d, coords, ds, dims = got
            n += 1
            if base in ("line", "array"):
                ok = all(not q for i, q in enumerate(dims) if i not in along) and axlen(ds) == base_points(sc, base)
                rep.check(ok, f"{key}:axes", label, f"{label}: the line does not run along axis {along[0]} of the grid")
                if not ok:
                    continue
            v = Fractions(sc.A, case_of(kind), {"n"})
            c = CURV[method] if kind != "array" else "n"
            P = NF.of(("P", d, c, True))
            for i in range(3):
                a, b = (corner_points(sc, base, x, i, ds, coords) for x in "ab")
                if a is None or b is None:
                    rep.bad(f"{key}:points", label, f"{label}: {'xyz'[i]} does not come from the points of both ends in their own order")
                    continue
                A, B = NF.of(a), NF.of(b)
                want = A + P * (B - A)
                try:
                    ok, got = v.verdict(v.paths(coords[i]), lambda x: x == want)
                except (Unknown, Mismatch):
                    rep.skip(f"{key}:points")
                    continue
                if ok is None:
                    rep.skip(f"{key}:points")
                    continue
                rep.check(ok, f"{key}:points", label, f"{label}: {'xyz'[i]} is {got} instead of {want}")
    if not n:
        raise Broken("no extrusion could be followed")
    rep.note = f"{n} extrusions followed"


def base_points(sc, base):
    return axlen((sc.line_pts,))
