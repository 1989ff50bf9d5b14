"""Input that cannot be used is refused; input that can be used is not."""
from __future__ import annotations

from fractions import Fraction as F

from ..fold import Fails, Fold, Unknown
from ..terms import Term

STRUCT = {"types": ["StructuredGrid"]}
UNSTR = {"types": ["UnstructuredGrid"]}
POLY = {"types": ["PolyData"]}
ARR = {"types": ["ndarray"]}
NUM = {"types": ["float"]}


class Given:
    """What is known of the parameters: name -> value (number, nested list for an array) or dict of attributes (mesh)."""

    def __init__(self, values):
        self.values = values

    def base(self, t):
        while True:
            if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("copy", "cast_to_structured_grid", "cast_to_unstructured_grid"):
                t = t.args[0].args[0]
            elif t.op == "dup":
                t = t.args[0]
            elif (t.op == "index" and t.args[0].op == "call" and t.args[0].args[0].op in ("glob", "func") and str(t.args[0].args[0].args[0]).endswith("split_lines")
                  and t.args[0].args[1]):
                t = t.args[0].args[1][0]
            else:
                return t

    def __call__(self, t):
        if t.op == "sym" and t.args[0] in self.values:
            v = self.values[t.args[0]]
            return None if isinstance(v, dict) else v
        if t.op == "isinst":
            b = self.base(t.args[0])
            if b.op == "sym" and isinstance(self.values.get(b.args[0]), dict) and "type" in self.values[b.args[0]]:
                return bool(KIND[self.values[b.args[0]]["type"]] & set(t.args[1]))
        if t.op == "call" and t.args[0].op == "call" and t.args[0].args[0].op == "glob" and t.args[0].args[0].args[0].endswith(".LinearNDInterpolator"):
            for v in self.values.values():
                if isinstance(v, dict) and "linear" in v:
                    return list(v["linear"])
        if t.op == "attr":
            b = self.base(t.args[0])
            if b.op == "sym" and isinstance(self.values.get(b.args[0]), dict):
                return self.values[b.args[0]].get(t.args[1])
        return None


KIND = {"StructuredGrid": {"StructuredGrid", "DataSet", "PointSet", "PointGrid"}, "UnstructuredGrid": {"UnstructuredGrid", "DataSet", "PointSet", "PointGrid"},
        "PolyData": {"PolyData", "DataSet", "PointSet"}, "ImageData": {"ImageData", "DataSet", "Grid"}, "RectilinearGrid": {"RectilinearGrid", "DataSet", "Grid"}}


def mentions(t, names):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.op == "sym" and x.args[0] in names:
                return True
            todo.extend(x.args)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
    return False


SURFACES = ("generate_arc", "generate_line_from_two_points", "generate_surface_from_two_lines", "generate_volume_from_two_surfaces")

MADE = SURFACES + ("merge", "remap_categorical_data", "split_lines")


def one(rep, ip, key, where, src, params, values, refuse, opaque=()):
    given = Given(values)

    def assume(c, *a):
        try:
            return Fold(ip, given).truth(c)
        except (Unknown, Fails):
            return None
    r = ip.run(src, params, assume=assume, opaque=opaque)
    rep.saw(r)
    open_ = [e for e in r.events if e.kind == "raise" and any(mentions(c, set(values)) for c, _ in e.facts)]
    if r.final is None:
        rep.check(refuse, key, where, f"{key}: every path of the code refuses this input")
    elif open_:
        rep.skip(f"{key}: {len(open_)} refusal(s) under conditions that could not be decided, first {open_[0].loc}")
    else:
        rep.check(not refuse, key, where, f"{key}: no path of the code refuses this input")


def grid(*dims):
    return {"type": "StructuredGrid", "dimensions": tuple(dims), "n_cells": _prod(max(1, n - 1) for n in dims), "n_points": _prod(dims)}


def _prod(v):
    out = 1
    for x in v:
        out *= x
    return out


def zeros(*shape):
    if not shape:
        return F(1)
    return [zeros(*shape[1:]) for _ in range(shape[0])]


def run(rep, ip, tier):
    """Every guard is decided by constant folding for representatives of each class of its input (ordering of the radii, number of
    axes, mesh type and dimension, number of items); an input that must be refused may reach no return, a usable one must."""
    rep.rule("radii: refused exactly when the annulus, sector or hole is empty or does not fit")
    rep.rule("stacks: axis is 0, 1 or 2, the base is flat along it and of the right dimension; at least two levels")
    rep.rule("points, vectors and subdivisions of the wrong shape are refused; those of the right shape are not")
    rep.rule("a surface that does not cover the base is refused unless extrapolation is asked for")
    radii(rep, ip)
    bases(rep, ip)
    items(rep, ip)
    arrays(rep, ip)
    cover(rep, ip)
    misc(rep, ip)


def radii(rep, ip):
    vals = [F(-2), F(-1), F(0), F(1, 2), F(1), F(2), F(3)]
    for fn in ("AnnularSector", "Annulus", "CylindricalShell", "CylindricalShellSector"):
        for i in vals:
            for o in vals:
                one(rep, ip, f"{fn}:inner={i},outer={o}", fn, f"m = {fn}(i, o)", {"i": NUM, "o": NUM}, {"i": i, "o": o}, not 0 <= i < o, SURFACES)
    for fn in ("Sector", "Circle"):
        for v in vals:
            one(rep, ip, f"{fn}:radius={v}", fn, f"m = {fn}(r)", {"r": NUM}, {"r": v}, v <= 0, SURFACES)
    sides = [(F(3), F(4)), (F(4), F(3)), (F(3), F(3)), (F(1, 2), F(6)), (F(6), F(1, 2))]
    for dx, dy in sides:
        lo, hi = min(dx, dy), max(dx, dy)
        diag = F(5) if lo == 3 and hi == 4 else None
        for r in sorted({F(-10), F(-1), F(0), lo / 8, lo / 2, lo * F(99, 100), lo, lo * F(101, 100), (lo + hi) / 2, hi, hi * 2, hi * 9}):
            one(rep, ip, f"SectorRectangle:dx={dx},dy={dy},radius={r}", "SectorRectangle", "m = SectorRectangle(dx=dx, dy=dy, radius=r)",
                {"dx": NUM, "dy": NUM, "r": NUM}, {"dx": dx, "dy": dy, "r": r}, not 0 < r < lo, SURFACES)
            if r == hi and lo != hi:
                continue
            if r * r != dx * dx + dy * dy:
                one(rep, ip, f"RectangleSector:dx={dx},dy={dy},radius={r}", "RectangleSector", "m = RectangleSector(dx=dx, dy=dy, radius=r)",
                    {"dx": NUM, "dy": NUM, "r": NUM}, {"dx": dx, "dy": dy, "r": r}, r < 0 or r * r < dx * dx + dy * dy, SURFACES)
            if dx == dy:
                one(rep, ip, f"SectorSquare:dx={dx},radius={r}", "SectorSquare", "m = SectorSquare(dx=dx, radius=r)",
                    {"dx": NUM, "r": NUM}, {"dx": dx, "r": r}, not 0 < r < lo, SURFACES)
                one(rep, ip, f"SquareSector:dx={dx},radius={r}", "SquareSector", "m = SquareSector(dx=dx, radius=r)",
                    {"dx": NUM, "r": NUM}, {"dx": dx, "r": r}, r < 0 or r * r < 2 * dx * dx, SURFACES)
        if diag:
            for r in (diag * F(99, 100), diag * F(101, 100)):
                one(rep, ip, f"RectangleSector:dx={dx},dy={dy},radius={r}", "RectangleSector", "m = RectangleSector(dx=dx, dy=dy, radius=r)",
                    {"dx": NUM, "dy": NUM, "r": NUM}, {"dx": dx, "dy": dy, "r": r}, r < diag, SURFACES)


def bases(rep, ip):
    flat = {0: (1, 4, 3), 1: (4, 1, 3), 2: (4, 3, 1)}
    for axis in (-3, -2, -1, 0, 1, 2, 3, 4):
        for other, dims in flat.items():
            one(rep, ip, f"MeshStack3D:dimensions={dims},axis={axis}", "MeshStack3D", f"m = MeshStack3D(b, axis={axis})", {"b": STRUCT}, {"b": grid(*dims)}, axis != other)
        one(rep, ip, f"MeshStack2D:line,axis={axis}", "MeshStack2D", f"m = MeshStack2D(b, axis={axis})", {"b": POLY},
            {"b": {"type": "PolyData", "n_lines": 1, "n_faces_strict": 0}}, axis not in (0, 1, 2))
    for t in ("ImageData", "RectilinearGrid", "StructuredGrid"):
        for dims in ((4, 3, 1), (4, 1, 1), (1, 4, 1), (4, 3, 2), (1, 1, 1)):
            two = sum(n > 1 for n in dims) == 2
            m = dict(grid(*dims), type=t)
            one(rep, ip, f"MeshStack3D:{t},dimensions={dims}", "MeshStack3D", "m = MeshStack3D(b)", {"b": {"types": [t]}}, {"b": m}, not two)
            one(rep, ip, f"MeshExtrude:{t},dimensions={dims}", "MeshExtrude", "m = MeshExtrude(b)", {"b": {"types": [t]}}, {"b": m}, not two)
    C = ip_types()
    for name, dim in (("VERTEX", 0), ("LINE", 1), ("POLY_LINE", 1), ("TRIANGLE", 2), ("QUAD", 2), ("POLYGON", 2), ("PIXEL", 2), ("TETRA", 3), ("HEXAHEDRON", 3), ("POLYHEDRON", 3)):
        m = {"type": "UnstructuredGrid", "celltypes": [C[name]], "n_cells": 1}
        for fn in ("MeshStack3D", "MeshExtrude"):
            one(rep, ip, f"{fn}:unstructured {name}", fn, f"m = {fn}(b)", {"b": UNSTR}, {"b": m}, dim != 2)
    for n_lines in (0, 1):
        one(rep, ip, f"MeshStack2D:{n_lines} line(s)", "MeshStack2D", "m = MeshStack2D(b)", {"b": POLY}, {"b": {"type": "PolyData", "n_lines": n_lines, "n_faces_strict": 1 - n_lines}}, not n_lines)
    for t in ("StructuredGrid", "UnstructuredGrid"):
        one(rep, ip, f"MeshStack2D:{t}", "MeshStack2D", "m = MeshStack2D(b)", {"b": {"types": [t]}}, {"b": {"type": t}}, True)
    one(rep, ip, "MeshStack3D:PolyData", "MeshStack3D", "m = MeshStack3D(b)", {"b": POLY}, {"b": {"type": "PolyData", "n_lines": 0, "n_faces_strict": 1}}, True)
    for shape in ((5,), (5, 2), (5, 3)):
        one(rep, ip, f"MeshStack2D:array of shape {shape}", "MeshStack2D", "m = MeshStack2D(b)", {"b": ARR}, {"b": zeros(*shape)}, len(shape) != 1)


def ip_types():
    from ..extmodel import CELLTYPES
    return CELLTYPES


def items(rep, ip):
    line = {"b": {"type": "PolyData", "n_lines": 1, "n_faces_strict": 0}}
    for n in range(4):
        add = "".join("m.add(%d.0, 1)\n" % i for i in range(n))
        one(rep, ip, f"MeshStack2D:{n} level(s)", "MeshStack2D.generate_mesh", f"m = MeshStack2D(b)\n{add}g = m.generate_mesh()", {"b": POLY}, line, n < 2, MADE)
        one(rep, ip, f"MeshStack3D:{n} level(s)", "MeshStack3D.generate_mesh", f"m = MeshStack3D(b)\n{add}g = m.generate_mesh()", {"b": STRUCT}, {"b": grid(4, 3, 1)}, n < 2, MADE)
        add = "m.add((0.0, 0.0, 1.0), 1)\n" * n
        one(rep, ip, f"MeshExtrude:{n} item(s)", "MeshExtrude.generate_mesh", f"m = MeshExtrude(b)\n{add}g = m.generate_mesh()", {"b": STRUCT}, {"b": grid(4, 3, 1)}, n < 1, MADE)
        add = "m.add(b)\n" * n
        one(rep, ip, f"MeshMerge:{n} item(s)", "MeshMerge.generate_mesh", f"m = MeshMerge()\n{add}g = m.generate_mesh()", {"b": UNSTR}, {"b": {"type": "UnstructuredGrid", "n_cells": 3}}, n < 1, MADE)


def arrays(rep, ip):
    shapes = [(), (1,), (2,), (3,), (4,), (1, 3), (3, 1), (3, 3), (1, 1, 3)]
    for shape in shapes:
        one(rep, ip, f"MeshExtrude.add:vector of shape {shape}", "MeshExtrude.add", "m = MeshExtrude(b)\nm.add(v)", {"b": STRUCT, "v": ARR},
            {"b": grid(4, 3, 1), "v": zeros(*shape)}, shape != (3,))
    base3 = {"type": "UnstructuredGrid", "celltypes": [9], "n_cells": 1, "n_points": 4, "points": [[F(0), F(0), F(0)], [F(1), F(0), F(0)], [F(1), F(1), F(0)], [F(0), F(1), F(0)]], "linear": [F(5)] * 4}
    for fn, b, given in (("MeshStack2D", POLY, line([F(0), F(1), F(4)])), ("MeshStack3D", UNSTR, base3)):
        for shape in ((1,), (3,), (12,), (5, 1), (5, 2), (5, 4), (5, 5), (2, 3, 3), (1, 5, 3)):
            v = zeros(*shape)
            if len(shape) == 2:
                v = [[F(2 * r - 1), F(r * r if fn == "MeshStack3D" else 0), F(5), F(7), F(9)][:shape[1]] for r in range(shape[0])]
            for axis in (2, 0):
                g = dict(given, **({"points": [[p[(i - axis - 1) % 3] for i in range(3)] for p in given["points"]]} if axis == 0 else {}))
                one(rep, ip, f"{fn}.add:axis={axis}:array of shape {shape}", f"{fn}.add", f"m = {fn}(b, axis={axis})\nm.add(v)", {"b": b, "v": ARR}, {"b": g, "v": v}, True, LINES)
        one(rep, ip, f"{fn}.add:number", f"{fn}.add", f"m = {fn}(b)\nm.add(v)", {"b": b, "v": NUM}, {"b": given, "v": F(2)}, False)
    for shape in ((2, 2), (3, 1), (1, 3), (1, 1, 1)):
        for call in ("RES(r)",):
            one(rep, ip, f"resolution of shape {shape}", "resolution_to_perc", "from pvgridder.core._helpers import resolution_to_perc\nm = resolution_to_perc(r)", {"r": ARR}, {"r": zeros(*shape)}, True)
    for shape in ((2,), (5,)):
        one(rep, ip, f"resolution of shape {shape}", "resolution_to_perc", "from pvgridder.core._helpers import resolution_to_perc\nm = resolution_to_perc(r)", {"r": ARR}, {"r": zeros(*shape)}, False)


def line(xs, axis=2):
    """A polyline in the plane of the stack, along its first other axis."""
    k = (axis + 1) % 3
    return {"type": "PolyData", "n_lines": 1, "n_faces_strict": 0, "points": [[x if i == k else F(0) for i in range(3)] for x in xs], "n_points": len(xs)}


def cover(rep, ip):
    up, bent = [F(0), F(1), F(4)], [F(1), F(4), F(0), F(2)]
    for axis in (0, 1, 2):
        for shape, xs in (("left to right", up), ("right to left", up[::-1]), ("folded", bent)):
            for lo in (F(-1), F(0), F(1, 2), F(9)):
                for hi in (F(5), F(4), F(3), F(-9)):
                    if lo >= hi:
                        continue
                    for order in ("ascending", "descending"):
                        for ext in (None, "nearest"):
                            at = [lo, (lo + hi) / 2, hi][::1 if order == "ascending" else -1]
                            pts = [[F(7) + x if i == axis else x if i == (axis + 1) % 3 else F(0) for i in range(3)] for x in at]
                            one(rep, ip, f"MeshStack2D.add:axis={axis}:points {order} from {lo} to {hi} over a base from 0 to 4 {shape}:extrapolation={ext}", "MeshStackBase._interpolate",
                                f"m = MeshStack2D(b, axis={axis})\nm.add(v, extrapolation={ext!r})", {"b": POLY, "v": ARR}, {"b": line(xs, axis), "v": pts},
                                ext is None and not (lo <= 0 and hi >= 4), LINES)
    nan = float("nan")
    pts = [[F(0), F(0), F(5)], [F(4), F(0), F(6)], [F(0), F(4), F(7)], [F(4), F(4), F(8)]]
    base = {"type": "UnstructuredGrid", "celltypes": [9], "n_cells": 1, "n_points": 4, "points": [[F(0), F(0), F(0)], [F(1), F(0), F(0)], [F(1), F(1), F(0)], [F(0), F(1), F(0)]]}
    for inside in ([1, 1, 1, 1], [0, 1, 1, 1], [1, 1, 1, 0], [1, 0, 0, 1], [0, 0, 0, 0]):
        for ext in (None, "nearest"):
            v = dict(base, linear=[F(5) if x else nan for x in inside])
            one(rep, ip, f"MeshStack3D.add:points, base vertices covered {inside}:extrapolation={ext}", "MeshStackBase._interpolate",
                f"m = MeshStack3D(b)\nm.add(v, extrapolation={ext!r})", {"b": UNSTR, "v": ARR}, {"b": v, "v": pts}, ext is None and 0 in inside)


LINES = ("split_lines",)


def misc(rep, ip):
    a = [[F(i), F(j), F(0)] for i in range(4) for j in range(3)]
    for da in ((4, 3, 1), (4, 1, 3), (1, 4, 3), (12, 1, 1), (3, 2, 2)):
        for db in ((4, 3, 1), (3, 4, 1), (4, 1, 3), (12, 1, 1), (3, 2, 2)):
            one(rep, ip, f"Volume:structured {da} and {db}", "generate_volume_from_two_surfaces", "m = Volume(a, b)", {"a": STRUCT, "b": STRUCT},
                {"a": dict(grid(*da), points=a), "b": dict(grid(*db), points=a)}, da != db or sum(n > 1 for n in da) != 2)
    g, u = dict(grid(4, 3, 1), points=a), {"type": "UnstructuredGrid", "points": a, "n_points": 12, "celltypes": [9] * 6, "n_cells": 6}
    for ta, tb in ((g, u), (u, g), ({"type": "PolyData", "points": a}, {"type": "PolyData", "points": a})):
        one(rep, ip, f"Volume:{ta['type']} and {tb['type']}", "generate_volume_from_two_surfaces", "m = Volume(a, b)", {"a": {"types": [ta["type"]]}, "b": {"types": [tb["type"]]}}, {"a": ta, "b": tb}, True)
    for na, nb in ((12, 11), (11, 12), (12, 6)):
        one(rep, ip, f"Volume:unstructured of {na} and {nb} points", "generate_volume_from_two_surfaces", "m = Volume(a, b)", {"a": UNSTR, "b": UNSTR},
            {"a": dict(u, points=a[:na], n_points=na), "b": dict(u, points=a[:nb], n_points=nb)}, True)
    for na, nb in ((5, 5), (5, 4), (4, 5), (5, 1)):
        one(rep, ip, f"StructuredSurface:lines of {na} and {nb} points", "generate_surface_from_two_lines", "m = StructuredSurface(a, b)", {"a": ARR, "b": ARR}, {"a": zeros(na, 3), "b": zeros(nb, 3)}, na != nb)
    for sa, sb in (((3,), (3,)), ((2,), (2,)), ((3,), (2,)), ((2,), (3,)), ((3,), (1,))):
        one(rep, ip, f"line between points of shape {sa} and {sb}", "generate_line_from_two_points", "from pvgridder.core._helpers import generate_line_from_two_points\nm = generate_line_from_two_points(a, b)",
            {"a": ARR, "b": ARR}, {"a": zeros(*sa), "b": zeros(*sb)}, sa != sb)
    for r, c in ((F(2), F(1)), (F(2), F(199, 100)), (F(2), F(0)), (F(2), F(-3))):
        one(rep, ip, f"VoronoiMesh2D.add_circle:radius={r},constraint_radius={c}", "VoronoiMesh2D.add_circle", "m = VoronoiMesh2D(b)\nm.add_circle(r, c)", {"b": UNSTR, "r": NUM, "c": NUM},
            {"b": u, "r": r, "c": c}, True, MADE)
    for r, c in ((F(2), F(2)), (F(1, 2), F(1, 2))):
        one(rep, ip, f"VoronoiMesh2D.add_circle:radius={r},constraint_radius={c}", "VoronoiMesh2D.add_circle", "m = VoronoiMesh2D(b)\nm.add_circle(r, c)", {"b": UNSTR, "r": NUM, "c": NUM},
            {"b": u, "r": r, "c": c}, False, MADE)
    for shape in ((), (1,), (2,), (3,), (4,), (1, 2), (5, 1), (5, 2), (5, 3), (5, 4), (1, 5, 3), (2, 2, 2)):
        one(rep, ip, f"VoronoiMesh2D.add:points of shape {shape}", "VoronoiMesh2D.add", "m = VoronoiMesh2D(b)\nm.add(v)", {"b": UNSTR, "v": ARR}, {"b": u, "v": zeros(*shape)},
            shape not in ((2,), (3,), (1, 2), (5, 2), (5, 3)))
    for shape in ((5,), (5, 1), (5, 4), (2, 5, 3)):
        one(rep, ip, f"reconstruct_line:points of shape {shape}", "reconstruct_line", "m = reconstruct_line(v)", {"v": ARR}, {"v": zeros(*shape)}, True)
    for shape in ((5, 2), (5, 3)):
        one(rep, ip, f"reconstruct_line:points of shape {shape}", "reconstruct_line", "m = reconstruct_line(v)", {"v": ARR}, {"v": zeros(*shape)}, False)
    for shape in ((6, 3), (6, 2), (5, 3), (7, 3), (6,), (3, 6), (1, 6, 3)):
        one(rep, ip, f"get_connectivity:centers of shape {shape} for 6 cells", "get_connectivity", "m = get_connectivity(b, cell_centers=v)", {"b": UNSTR, "v": ARR}, {"b": u, "v": zeros(*shape)}, shape != (6, 3))
    for lines, faces in ((0, 0), (1, 0), (0, 1), (1, 1)):
        one(rep, ip, f"ray_cast:PolyData with {lines} line(s) and {faces} face(s)", "ray_cast", "m = ray_cast(b, (0.0, 0.0, 0.0), (1.0, 0.0, 0.0))", {"b": POLY},
            {"b": {"type": "PolyData", "n_lines": lines, "n_faces_strict": faces}}, bool(lines and faces))
    for faces in (0,):
        one(rep, ip, f"offset_polygon:{faces} face(s)", "offset_polygon", "m = offset_polygon(b, 1.0)", {"b": POLY}, {"b": {"type": "PolyData", "n_lines": 1 - faces, "n_faces_strict": faces}}, not faces)
    for t, n in (("polygon", 1),):
        one(rep, ip, f"Polygon:{n} hole(s), celltype={t}", "Polygon", f"m = Polygon(s, h, celltype={t!r})", {"s": ARR, "h": {"types": ["list"]}},
            {"s": zeros(4, 3), "h": [zeros(4, 3)] * n}, True)
