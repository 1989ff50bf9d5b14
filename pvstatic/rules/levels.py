"""Levels of a stack given as points, meshes, functions or distances."""
from __future__ import annotations

import itertools
from fractions import Fraction as F

from ..fold import Fails, Fold, Unknown
from ..terms import mk
from .refusals import ARR, NUM, POLY, UNSTR, Given, line

WHERE = "MeshStackBase.add"


class Surface(Given):
    """Given values, plus what scipy's interpolators return at and away from the nodes, and what the user's function returns."""

    def __init__(self, ip, values):
        super().__init__(values)
        self.ip = ip

    def __call__(self, t):
        if t.op == "call" and t.args[0].op == "call" and t.args[0].args[0].op == "glob" and len(t.args[0].args[1]) == 2 and len(t.args[1]) == 1 and not t.args[2]:
            name = t.args[0].args[0].args[0].rsplit(".", 1)[-1]
            if name in ("LinearNDInterpolator", "NearestNDInterpolator") and not t.args[0].args[2]:
                f = Fold(self.ip, self, self.heap)
                nodes, heights, at = f.of(t.args[0].args[1][0]), f.of(t.args[0].args[1][1]), f.of(t.args[1][0])
                if len(nodes) != len(heights) or any(len(p) != 2 for p in nodes) or any(len(q) != 2 for q in at):
                    raise Unknown()
                return [linear(nodes, heights, q) if name[0] == "L" else nearest(nodes, heights, q) for q in at]
        if t.op == "call" and t.args[0].op == "sym" and t.args[0].args[0] == "f":
            f = Fold(self.ip, self, self.heap)
            cols = []
            for a in t.args[1]:
                if a.op == "star":
                    cols += list(f.of(a.args[0]))
                else:
                    cols.append(f.of(a))
            if len(cols) != 3 or t.args[2]:
                raise Unknown()
            return [height(*p) for p in zip(*cols)]
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "apply" and len(t.args[1]) == 1:
            rot = t.args[0].args[0]
            if rot.op == "call" and rot.args[0].op == "glob" and rot.args[0].args[0].endswith(".Rotation.from_rotvec") and len(rot.args[1]) == 1:
                f = Fold(self.ip, self, self.heap)
                angles, deg = f.deref(rot.args[1][0]), dict(rot.args[2]).get("degrees")
                unit = 1 if deg is not None and f.of(deg) is True else 57
                return [turned([unit * a for a in angles], p) for p in f.deref(t.args[1][0])]
        if t.op == "attr" and t.args[1] == "points":
            m = t.args[0]
            while m.op == "dup" or m.op == "call" and m.args[0].op == "attr" and m.args[0].args[1] in ("copy", "cast_to_structured_grid", "cast_to_unstructured_grid"):
                # a copy starts with the points its original has by then
                m = m.args[0] if m.op == "dup" else m.args[0].args[0]
                for key in (("attr", m, "points"), ("arr", mk("attr", m, "points"))):
                    if key in self.heap and self.heap[key] is not mk("attr", m, "points"):
                        return Fold(self.ip, self, self.heap).of(self.heap[key])
        return super().__call__(t)

    heap = {}


def height(x, y, z):
    return 100 * F(x) + 10 * F(y) + F(z) + 7


def turned(angles, p):
    """Some linear map that depends on the angles (its sense and exact coefficients are scipy's business)."""
    k = sum(a * w for a, w in zip(angles, (7, 11, 13)))
    return [sum((5 * i + 3 * j + 2 + k) * x for j, x in enumerate(p)) for i in range(3)]


def linear(nodes, heights, q):
    """At a node its height; outside of the bounding box of the nodes, nothing; elsewhere not modelled."""
    for p, h in zip(nodes, heights):
        if list(p) == list(q):
            return h
    box = [[min(p[i] for p in nodes), max(p[i] for p in nodes)] for i in range(2)]
    corner = {tuple(p): h for p, h in zip(nodes, heights)}
    if all(c in corner for c in itertools.product(*box)) and all(lo <= x <= hi for x, (lo, hi) in zip(q, box)):
        # the nodes span a rectangle: on a plane, linear interpolation is that plane
        (x0, x1), (y0, y1) = box
        h0 = corner[x0, y0]
        plane = lambda p: h0 + (corner[x1, y0] - h0) * (p[0] - x0) / (x1 - x0) + (corner[x0, y1] - h0) * (p[1] - y0) / (y1 - y0)  # noqa: E731
        if all(plane(p) == h for p, h in zip(nodes, heights)):
            return plane(q)
    if any(q[i] < min(p[i] for p in nodes) or q[i] > max(p[i] for p in nodes) for i in range(2)):
        return float("nan")
    raise Unknown()


def nearest(nodes, heights, q):
    d = [sum((a - b) ** 2 for a, b in zip(p, q)) for p in nodes]
    if d.count(min(d)) > 1:
        raise Unknown()
    return heights[d.index(min(d))]


def one(rep, ip, key, src, params, values, want, opaque=("split_lines",)):
    given = Surface(ip, values)

    def assume(c, heap=None, *a):
        try:
            return Fold(ip, given).truth(c)
        except (Unknown, Fails):
            return None
    r = ip.run(src + "\np = m.items[-1].mesh.points", params, assume=assume, opaque=opaque)
    rep.saw(r)
    if r.final is None:
        rep.bad(key, WHERE, f"{key}: refused")
        return
    given.heap = r.final.heap
    try:
        got = Fold(ip, given, r.final.heap).deref(r.env["p"])
        got = [list(p) for p in got]
        bad = next((i for i, (p, q) in enumerate(zip(got, want)) if len(p) != 3 or any(a != b for a, b in zip(p, q))), None)
    except (Unknown, TypeError):
        rep.skip(f"{key}: the points of the level could not be followed")
        return
    except Fails as e:
        rep.bad(key, WHERE, f"{key}: {e.what}")
        return
    if len(got) != len(want):
        rep.bad(key, WHERE, f"{key}: the level has {len(got)} points, its base {len(want)}")
        return
    rep.check(bad is None, key, WHERE, f"{key}: point {bad} of the level is {[str(x) for x in got[bad]] if bad is not None else ''}, expected {[str(x) for x in want[bad]] if bad is not None else ''}")


def lifted(points, axis, heights):
    return [[h if i == axis else x for i, x in enumerate(p)] for p, h in zip(points, heights)]


def run(rep, ip, tier):
    """The points of the level that add() stores are folded for lines and surfaces in every orientation; scipy's interpolators are
    modelled at the nodes (the height of the node) and outside of their extent (nothing, or the nearest node)."""
    rep.rule("each vertex of the base takes, along the stacking axis, the height the points (in any order), mesh or function give at its place; its other coordinates stay")
    rep.rule("beyond the points, with extrapolation, the height of the nearest point")
    rep.rule("a number is the height of the first level, and the distance from the previous level (whatever its sign) of the others")
    rep.rule("add_plane: the height of the given point plus the turned offset from it, rotation about the stacking axis ignored")
    lines(rep, ip)
    surfaces(rep, ip)
    functions(rep, ip)
    planes(rep, ip)
    numbers(rep, ip)


def lines(rep, ip):
    for axis in (0, 1, 2):
        for k in [i for i in range(3) if i != axis]:
            for shape, xs in (("left to right", [F(0), F(1), F(4)]), ("right to left", [F(4), F(1), F(0)]), ("folded", [F(1), F(4), F(0), F(2)])):
                base = dict(line(xs), points=[[x if i == k else F(9) if i == axis else F(3) for i in range(3)] for x in xs])
                for lo, hi, ext in ((F(-1), F(5), None), (F(0), F(4), None), (F(-1), F(5), "nearest"), (F(1, 2), F(3), "nearest"), (F(0), F(2), "nearest")):
                    nodes = [(lo, F(10)), ((lo + hi) / 2, F(30)), ((lo + 3 * hi) / 4, F(22)), (hi, F(14))]
                    for order in itertools.islice(itertools.permutations(nodes), 0, None, 5):
                        v = [[x if i == k else h if i == axis else F(0) for i in range(3)] for x, h in order]
                        want = lifted(base["points"], axis, [along(nodes, x) for x in xs])
                        name = ",".join(str(x) for x, _ in order)
                        one(rep, ip, f"MeshStack2D:axis={axis}:line along {k} {shape}:points at {name}:extrapolation={ext}",
                            f"m = MeshStack2D(b, axis={axis})\nm.add(v, extrapolation={ext!r})", {"b": POLY, "v": ARR}, {"b": base, "v": v}, want)
                v = [[x if i == k else h if i == axis else F(0) for i in range(3)] for x, h in [(F(-1), F(10)), (F(2), F(30)), (F(5), F(20))]]
                one(rep, ip, f"MeshStack2D:axis={axis}:line along {k} {shape}:points of a mesh", f"m = MeshStack2D(b, axis={axis})\nm.add(v)", {"b": POLY, "v": POLY},
                    {"b": base, "v": {"type": "PolyData", "n_lines": 1, "points": v}}, lifted(base["points"], axis, [along([(F(-1), F(10)), (F(2), F(30)), (F(5), F(20))], x) for x in xs]))


def along(nodes, x):
    if x <= nodes[0][0]:
        return nodes[0][1]
    for (a, f), (b, g) in zip(nodes, nodes[1:]):
        if x <= b:
            return f + (x - a) / (b - a) * (g - f)
    return nodes[-1][1]


def surfaces(rep, ip):
    for axis in (0, 1, 2):
        i, j = [k for k in range(3) if k != axis]

        def at(p, q, h):
            out = [None] * 3
            out[i], out[j], out[axis] = F(p), F(q), F(h)
            return out
        flat = [(0, 0), (2, 0), (2, 3), (0, 3)]
        base = {"type": "UnstructuredGrid", "celltypes": [9], "n_cells": 1, "n_points": 4, "points": [at(p, q, 5) for p, q in flat]}
        nodes = [(0, 3, 40), (2, 0, 20), (-1, -1, 1), (0, 0, 10), (5, 5, 2), (2, 3, 30), (-1, 5, 3)]
        h = {(p, q): F(v) for p, q, v in nodes}
        for order in (nodes, nodes[::-1], nodes[3:] + nodes[:3]):
            for ext in (None, "nearest"):
                one(rep, ip, f"MeshStack3D:axis={axis}:nodes from {order[0]}:extrapolation={ext}", f"m = MeshStack3D(b, axis={axis})\nm.add(v, extrapolation={ext!r})", {"b": UNSTR, "v": ARR},
                    {"b": base, "v": [at(*n) for n in order]}, lifted(base["points"], axis, [h[p] for p in flat]))
                one(rep, ip, f"MeshStack3D:axis={axis}:mesh with nodes from {order[0]}:extrapolation={ext}", f"m = MeshStack3D(b, axis={axis})\nm.add(v, extrapolation={ext!r})", {"b": UNSTR, "v": UNSTR},
                    {"b": base, "v": {"type": "UnstructuredGrid", "points": [at(*n) for n in order]}}, lifted(base["points"], axis, [h[p] for p in flat]))
        _planes(rep, ip, axis, at)
        few = [(0, 0, 10), (F(1, 2), F(7, 4), 25), (0, 2, 40), (2, 0, 20)]
        for order in (few, few[::-1]):
            want = [F(10), F(20), F(25), F(40)]
            one(rep, ip, f"MeshStack3D:axis={axis}:nodes not covering from {order[0]}:extrapolation=nearest", f"m = MeshStack3D(b, axis={axis})\nm.add(v, extrapolation='nearest')", {"b": UNSTR, "v": ARR},
                {"b": base, "v": [at(*n) for n in order]}, lifted(base["points"], axis, want))


def _planes(rep, ip, axis, at):
    flat = [(0, 0), (6, F(1, 2)), (3, 3), (F(1, 4), 3)]
    base = {"type": "UnstructuredGrid", "celltypes": [9], "n_cells": 1, "n_points": 4, "points": [at(p, q, 5) for p, q in flat]}
    h = lambda p, q: 2 * F(p) + 7 * F(q) + 1  # noqa: E731
    for top, ext in ((8, None), (8, "nearest"), (4, "nearest"), (2, "nearest")):
        nodes = [(p, q) for p in (-1, top) for q in (-2, 4 if top > 2 else 2)]
        for order in itertools.islice(itertools.permutations(nodes), 0, None, 7):
            want = []
            for p, q in flat:
                hi = 4 if top > 2 else 2
                want.append(h(p, q) if -1 <= p <= top and -2 <= q <= hi else nearest([list(n) for n in order], [h(*n) for n in order], (p, q)))
            one(rep, ip, f"MeshStack3D:axis={axis}:nodes {order}:extrapolation={ext}", f"m = MeshStack3D(b, axis={axis})\nm.add(v, extrapolation={ext!r})", {"b": UNSTR, "v": ARR},
                {"b": base, "v": [at(p, q, h(p, q)) for p, q in order]}, lifted(base["points"], axis, want))


def functions(rep, ip):
    for axis in (0, 1, 2):
        pts = [[F(1), F(2), F(3)], [F(4), F(6), F(8)], [F(0), F(5), F(-2)]]
        base = {"type": "UnstructuredGrid", "celltypes": [5], "n_cells": 1, "n_points": 3, "points": pts}
        one(rep, ip, f"MeshStack3D:axis={axis}:function", f"m = MeshStack3D(b, axis={axis})\nm.add(f)", {"b": UNSTR, "f": {"types": ["callable"]}}, {"b": base}, lifted(pts, axis, [height(*p) for p in pts]))


def planes(rep, ip):
    pts = [[F(1), F(2), F(3)], [F(4), F(6), F(8)], [F(0), F(5), F(-2)]]
    base = {"type": "UnstructuredGrid", "celltypes": [5], "n_cells": 1, "n_points": 3, "points": pts}
    for axis in (0, 1, 2):
        for angles in ([F(10), F(20), F(30)], [F(0), F(15), F(0)], [F(-5), F(0), F(2)]):
            for at in ([F(1), F(2), F(9)], [F(3), F(-4), F(5)]):
                a = [F(0) if i == axis else x for i, x in enumerate(angles)]
                want = [turned(a, [F(0) if i == axis else x - y for i, (x, y) in enumerate(zip(p, at))])[axis] + at[axis] for p in pts]
                one(rep, ip, f"MeshStack3D.add_plane:axis={axis}:angles={[str(x) for x in angles]}:point={[str(x) for x in at]}", f"m = MeshStack3D(b, axis={axis})\nm.add_plane(a, q)",
                    {"b": UNSTR, "a": ARR, "q": ARR}, {"b": base, "a": angles, "q": at}, lifted(pts, axis, want))


def numbers(rep, ip):
    pts = [[F(1), F(2), F(3)], [F(4), F(6), F(8)], [F(0), F(5), F(-2)]]
    for fn, base in (("MeshStack3D", {"type": "UnstructuredGrid", "celltypes": [5], "n_cells": 1, "n_points": 3, "points": pts}),
                     ("MeshStack2D", {"type": "PolyData", "n_lines": 1, "n_faces_strict": 0, "points": pts, "n_points": 3})):
        for axis in (0, 1, 2):
            for up in (True, False):
                for a in (F(-5), F(0), F(2)):
                    make = f"m = {fn}(b, axis={axis}, bottom_up={up})\n"
                    p = {"b": UNSTR if fn == "MeshStack3D" else POLY, "u": NUM, "v": NUM, "w": NUM}
                    one(rep, ip, f"{fn}:axis={axis}:bottom_up={up}:first {a}", make + "m.add(u)", p, {"b": base, "u": a}, lifted(pts, axis, [a] * 3))
                    for d in (F(3), F(-4)):
                        s = abs(d) if up else -abs(d)
                        one(rep, ip, f"{fn}:axis={axis}:bottom_up={up}:first {a}, then {d}", make + "m.add(u)\nm.add(v)", p, {"b": base, "u": a, "v": d}, lifted(pts, axis, [a + s] * 3))
                        one(rep, ip, f"{fn}:axis={axis}:bottom_up={up}:first {a}, then {d}, then 2", make + "m.add(u)\nm.add(v)\nm.add(w)", p, {"b": base, "u": a, "v": d, "w": F(2)},
                            lifted(pts, axis, [a + s + (2 if up else -2)] * 3))
