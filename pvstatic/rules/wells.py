"""Circles and strips added to a Voronoi mesh."""
from __future__ import annotations

import math
from fractions import Fraction

from .. import known
from ..extmodel import CELLTYPES as CT
from ..fold import Fails, Fold, Unknown
from ..known import Mesh
from .tessel import Seeds, lift, rects

F = Fraction
TRI, QUAD = CT["TRIANGLE"], CT["QUAD"]
OPAQUE = ("Circle", "Annulus", "generate_surface_from_two_lines")
EPS = 1e-7
PLANES = {"xy": (0, 1, 2), "yx": (1, 0, 2), "xz": (0, 2, 1), "zx": (2, 0, 1), "yz": (1, 2, 0), "zy": (2, 1, 0)}
NAMES = {"Circle": ("radius", "resolution", "method", "center"),
         "Annulus": ("inner_radius", "outer_radius", "r_resolution", "theta_resolution", "r_method", "theta_method", "center"),
         "generate_surface_from_two_lines": ("line_a", "line_b", "plane", "resolution", "method")}


def percents(res, method=None):
    if method not in (None, "constant"):
        raise Unknown()
    if res is None:
        res = 1
    if isinstance(res, (int, Fraction, float)):
        return [F(i, int(res)) for i in range(int(res) + 1)]
    return sorted(res)


def arc(r, res):
    out = []
    for p in percents(res):
        a = 2 * math.pi * float(p)
        out.append([float(r) * math.cos(a), float(r) * math.sin(a), F(0)])
    return out


def moved(pts, center):
    if center is None:
        return pts
    c = list(center)
    if len(c) == 2:
        c.append(F(0))
    if len(c) != 3:
        raise Fails("invalid center")
    return [[x + y for x, y in zip(p, c)] for p in pts]


def circle(radius=1, resolution=None, method=None, center=None):
    if radius <= 0:
        raise Fails("invalid radius")
    pts = arc(radius, resolution)[:-1]
    n = len(pts)
    return Mesh([(TRI, [0, i + 1, (i + 1) % n + 1]) for i in range(n)], points=moved([[F(0)] * 3] + pts, center),
                kind="UnstructuredGrid", name="circle")


def annulus(inner_radius=F(1, 2), outer_radius=1, r_resolution=None, theta_resolution=None, r_method=None, theta_method=None, center=None):
    if not 0 <= inner_radius < outer_radius:
        raise Fails("invalid radii")
    if theta_method not in (None, "constant"):
        raise Unknown()
    rows = [arc(inner_radius + p * (outer_radius - inner_radius), theta_resolution) for p in percents(r_resolution, r_method)]
    return grid(rows, lambda pts: moved(pts, center))


def grid(rows, place=lambda pts: pts):
    n = len(rows[0])
    cells = [(QUAD, [j * n + i, j * n + i + 1, (j + 1) * n + i + 1, (j + 1) * n + i]) for j in range(len(rows) - 1) for i in range(n - 1)]
    m = Mesh(cells, points=place([p for r in rows for p in r]), kind="StructuredGrid", name="grid")
    return m


def surface(line_a, line_b, plane="xy", resolution=None, method=None):
    if isinstance(line_a, Mesh) or isinstance(line_b, Mesh):
        raise Unknown()
    if len(line_a) != len(line_b):
        raise Fails("lines of different lengths")
    rows = [[[x + p * (y - x) for x, y in zip(a, b)] for a, b in zip(line_a, line_b)] for p in percents(resolution, method)]
    if plane not in PLANES:
        raise Fails("invalid plane")
    i, j, k = PLANES[plane]
    if i > j:
        rows = [list(c) for c in zip(*rows)]
        i, j = j, i
    m = grid(rows)
    dims = [1, 1, 1]
    dims[i], dims[j] = len(rows[0]), len(rows)
    m.dims = tuple(dims)
    return m


MADE = {"Circle": circle, "Annulus": annulus, "generate_surface_from_two_lines": surface}


class Wells(Seeds):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.made = {}

    def _mesh(self, t, fold):
        if t.op == "call" and t.args[0].op in ("func", "glob"):
            n = str(t.args[0].args[0]).split(".")[-1]
            if n in MADE:
                a = [fold.of(x) for x in t.args[1]]
                k = {x: fold.of(y) for x, y in dict(t.args[2]).items()}
                k.update(zip(NAMES[n], a))
                return self.moved(MADE[n](**k), t, fold)
            if str(t.args[0].args[0]) == "pyvista.merge":
                return self.joined(t, fold)
        return super()._mesh(t, fold)

    def joined(self, t, fold):
        a = t.args[1][0]
        if a.op not in ("tuple", "list"):
            raise Unknown()
        pts, cells = [], []
        for x in a.args:
            m = self.placed(x, fold)
            if m is None:
                raise Unknown()
            cells += [(c, [i + len(pts) for i in ids]) for c, ids in m.cells]
            pts += m.points
        return self.moved(Mesh(cells, points=pts, kind="UnstructuredGrid", name="joined"), t, fold)

    def do_translate(self, m, a, k):
        if len(a) != 1 or set(k) - {"inplace"} or k.get("inplace"):
            raise Unknown()
        out = self.dup(m)
        out.points = moved(m.points, a[0])
        return out

    def do_clean(self, m, a, k):
        return m

    def special(self, t):
        if t.op == "attr" and t.args[1] == "dimensions":
            m = self.mesh(t.args[0], self.fold)
            if m is not None and getattr(m, "dims", None):
                return m.dims
        return super().special(t)


# ---------------------------------------------------------------- what is expected
def flat(p, axis):
    return tuple(float(x) for i, x in enumerate(p) if i != axis)


def ring(r0, r1, n, c):
    """Cells between two radii, triangles at the center."""
    out = []
    for i in range(n):
        a, b = 2 * math.pi * i / n, 2 * math.pi * (i + 1) / n
        q = [(r1, a), (r1, b)] + ([(r0, b), (r0, a)] if r0 else [(0, 0)])
        out.append([(c[0] + r * math.cos(x), c[1] + r * math.sin(x)) for r, x in q])
    return out


CENTERS = {"origin": None, "two": (F(7, 2), F(9, 4)), "three": (F(5, 2), F(15, 4))}
OPTIONS = {"": (None, 0), "priority=2, group='w'": ("w", 2), "plain=True, group='w', priority=-1": ("w", -1)}
LINES = {"straight": [[(1, 1), (3, 1), (4, 1)]], "bent": [[(1, 1), (3, 1), (3, 4)]], "two points": [[(1, 2), (4, 6)]],
         "hooked": [[(0, 0), (4, 3), (1, 7), (-2, 7)]], "pair": [[(1, 1), (1, 3), (3, 3)], [(6, 2), (6, 6)]]}


def run(rep, ip, tier):
    """VoronoiMesh2D.add_circle and add_polyline with known arguments in the three coordinate planes: the items left in the builder are compared with the
    sectors, rings and strips asked for, and the cells a plain circle selects with those nearer to the center than the radius."""
    rep.rule("add_circle: sectors and rings inside the radius with group and priority, one ring outside as wide as the one inside without group, about the center, in the plane")
    rep.rule("add_polyline: sides half the width away, square to the chord of the neighbours, cells of the line with group and priority, constraint cells without")
    wide = tier == "thorough"
    for axis in (0, 1, 2):
        for where in CENTERS:
            for radius, cons in ((F(1), None), (F(1), F(1)), (F(3, 2), F(2)), (F(1, 2), F(5, 8)), (F(1), F(15, 8))):
                for n in ((4, 6) if not wide else (3, 4, 5, 6, 8)):
                    for opt in OPTIONS:
                        if wide or n == 4 or opt:
                            disk(rep, ip, axis, where, radius, cons, n, opt)
        for name in LINES:
            for pref in (None, "cell", "point"):
                for cons in (None, 0, 2, (0, 1), (2, 0)):
                    for res in (None, 2, (F(0), F(1, 4), F(1))):
                        if not wide and (res is not None and cons not in (None, (2, 0)) or pref == "cell" and name != "bent"):
                            continue
                        for pad in (None, F(1, 4)):
                            if pad is None or pref != "point":
                                strip(rep, ip, axis, name, pref, cons, res, pad)


def gather(rep, ip, key, fn, src, params, leaf, probe=None):
    """[(mesh, group, priority)] of the items and what *probe* gives; None when undecided or refused."""
    src += "\nms = [i.mesh for i in v.items]\ngs = [i.group for i in v.items]\nps = [i.priority for i in v.items]"
    r = known.run(ip, src, params, leaf, opaque=OPAQUE)
    rep.saw(r)
    if r.final is None:
        rep.bad(key, fn, f"{key}: refused")
        return None
    if not known.accepted(r):
        rep.skip(key)
        return None
    ip.st = r.final
    leaf.fold = fold = Fold(ip, leaf)
    made = ip.st.heap.get(("obj", r.env["ms"]))
    if made is None or made.op != "list":
        raise Unknown()
    ms = [leaf.placed(x, fold) for x in made.args]
    gs, ps = fold.of(r.env["gs"]), fold.of(r.env["ps"])
    if not all(isinstance(m, Mesh) for m in ms) or not len(ms) == len(gs) == len(ps):
        raise Unknown()
    return list(zip(ms, gs, ps)), fold.of(r.env[probe]) if probe else None


def cells_of(got, axis):
    """[(vertices in the plane, group, priority)], and the elevations met."""
    out, heights = [], set()
    for m, g, p in got:
        for t, ids in m.cells:
            q = [m.points[i] for i in ids]
            heights |= {round(float(x[axis]), 9) for x in q}
            out.append((sorted((round(x, 6) + 0.0, round(y, 6) + 0.0) for x, y in (flat(x, axis) for x in q)), g or None, int(p or 0)))
    return sorted(out, key=str), heights


def differ(got, want, axis):
    have, heights = cells_of(got, axis)
    if heights - {0.0}:
        return f"cells are out of the plane, at {sorted(heights)}"
    want = sorted(((sorted((round(x, 6) + 0.0, round(y, 6) + 0.0) for x, y in q), g, p) for q, g, p in want), key=str)
    if len(have) != len(want):
        return f"{len(have)} cells instead of {len(want)}"
    rest = list(have)
    for w in want:
        for h in rest:
            if len(h[0]) == len(w[0]) and h[1:] == w[1:] and all(any(abs(a - c) < 1e-5 and abs(b - d) < 1e-5 for c, d in h[0]) for a, b in w[0]):
                rest.remove(h)
                break
        else:
            return f"no cell {w[0]} of group {w[1]} and priority {w[2]}"
    return None


def disk(rep, ip, axis, where, radius, cons, n, opt):
    key = f"add_circle:{'xyz'[axis]}:{where}:{radius}:{cons}:{n}:{opt}"
    group, prio = OPTIONS[opt]
    c = CENTERS[where]
    at = (0.0, 0.0) if c is None else tuple(float(x) for x in c)
    plain = "plain" in opt
    q = [(at[0] + s * float(radius) * math.cos(a), at[1] + s * float(radius) * math.sin(a)) for s in (0.0, 0.99, 1.01, 1.4) for a in (0.3, 2.0, 4.1)]
    values = {"r": radius, "k": cons, "q": [[x for x in p[:axis]] + [F(0)] + [x for x in p[axis:]] for p in q]}
    params = {"m": {"types": ["UnstructuredGrid"]}, "r": {"types": ["float"]}, "k": {"types": ["float"]}, "q": {"types": ["ndarray"]}}
    kw = (", k" if cons is not None else "") + f", resolution={n}" + (", center=c" if c else "") + (", " + opt if opt else "")
    if c:
        values["c"] = [F(x) for x in c] if where == "two" else lift(c, axis, 7)
        params["c"] = {"types": ["ndarray"]}
    src = f"v = VoronoiMesh2D(m, axis={axis})\nv.add_circle(r{kw})\n" + ("out = v.fuse_cells[0](q)" if plain else "out = len(v.fuse_cells)")
    leaf = Wells(ip, {"m": rects([(0, 0, 8, 8)], axis, (0, 0), 3)}, axis, values=values)
    try:
        got = gather(rep, ip, key, "VoronoiMesh2D.add_circle", src, params, leaf, "out")
        if got is None:
            return
        r0 = float(radius)
        dr = float(cons - radius) if cons is not None else r0 / 2
        if dr:
            want = [(p, group, prio) for p in ring(0, r0 - dr, n, at) + ring(r0 - dr, r0, n, at)]
            want += [(p, None, 0) for p in ring(r0, r0 + dr, n, at)]
        else:
            want = [(p, group, prio) for p in ring(0, r0, n, at)]
        why = differ(got[0], want, axis)
        mask = [math.dist(p, at) < r0 for p in q] if plain else 0
        if why is None and got[1] != mask:
            why = f"cells to fuse are {got[1]} instead of {mask}" if plain else "cells are fused though not asked"
    except Unknown:
        rep.skip(key)
        return
    except Fails as e:
        why = f"fails: {e}"
    rep.check(why is None, key, "VoronoiMesh2D.add_circle", f"{key}: {why}")


def band(line, width, pref, cons, res, pad):
    """Expected cells around a line with whether they are its own."""
    line = [tuple(float(x) for x in p) for p in line]
    if pref != "point":
        def beyond(a, b):
            d = math.dist(a, b)
            return tuple(x + pad * (x - y) / d for x, y in zip(a, b))
        line = [beyond(line[0], line[1])] + [tuple((x + y) / 2 for x, y in zip(a, b)) for a, b in zip(line, line[1:])] + [beyond(line[-1], line[-2])]
    first, last = cons if isinstance(cons, tuple) else (cons, cons)
    step0 = [b - a for a, b in zip(line[0], line[1])]
    step1 = [b - a for a, b in zip(line[-2], line[-1])]
    full = [tuple(x - (first - i) * s for x, s in zip(line[0], step0)) for i in range(first)] + line
    full += [tuple(x + (i + 1) * s for x, s in zip(line[-1], step1)) for i in range(last)]
    perc = [float(x) for x in percents(res)]
    perc = [2 * perc[0] - perc[1]] + perc + [2 * perc[-1] - perc[-2]]
    sides = []
    for i, p in enumerate(full):
        a, b = full[max(i - 1, 0)], full[min(i + 1, len(full) - 1)]
        if a == p:
            a = tuple(2 * x - y for x, y in zip(p, b))
        if b == p:
            b = tuple(2 * x - y for x, y in zip(p, a))
        d = math.dist(a, b)
        nx, ny = -(b[1] - a[1]) / d * width / 2, (b[0] - a[0]) / d * width / 2
        sides.append([(p[0] + (2 * s - 1) * nx, p[1] + (2 * s - 1) * ny) for s in perc])
    for i in range(len(full) - 1):
        for j in range(len(perc) - 1):
            own = first <= i < len(full) - 1 - last and 1 <= j < len(perc) - 2
            yield [sides[i][j], sides[i + 1][j], sides[i + 1][j + 1], sides[i][j + 1]], own


def strip(rep, ip, axis, name, pref, cons, res, pad):
    key = f"add_polyline:{'xyz'[axis]}:{name}:{pref}:{cons}:{res}:{pad}"
    width = F(3, 4)
    lines = LINES[name]
    values, params, meshes = {"w": width, "b": pad, "s": list(res) if isinstance(res, tuple) else None}, {}, {}
    if len(lines) == 1:
        values["p"] = [lift(p, axis, 5) for p in lines[0]]
        params["p"] = {"types": ["ndarray"]}
    else:
        pts, cells = [], []
        for ln in lines:
            cells.append((4, list(range(len(pts), len(pts) + len(ln)))))
            pts += [lift(p, axis, 5) for p in ln]
        meshes["p"] = Mesh(cells, points=pts, kind="PolyData", name="lines")
        params["p"] = {"types": ["PolyData"]}
    group, prio = ("w", 3) if res is None else (None, 0)
    params.update({"m": {"types": ["UnstructuredGrid"]}, "w": {"types": ["float"]}, "b": {"types": ["float"]}, "s": {"types": ["ndarray"]}})
    kw = (f", preference={pref!r}" if pref else "") + (f", constraint={cons!r}" if cons is not None else "") + (", padding=b" if pad is not None else "")
    kw += ", resolution=s" if isinstance(res, tuple) else f", resolution={res}" if res else ""
    kw += ", group='w', priority=3" if res is None else ""
    src = f"v = VoronoiMesh2D(m, axis={axis})\nv.add_polyline(p, w{kw})"
    meshes["m"] = rects([(0, 0, 8, 8)], axis, (0, 0), 3)
    leaf = Wells(ip, meshes, axis, values=values)
    try:
        got = gather(rep, ip, key, "VoronoiMesh2D.add_polyline", src, params, leaf)
        if got is None:
            return
        want = []
        for ln in lines:
            for p, own in band(ln, float(width), pref, 1 if cons is None else cons, res, float(pad) if pad is not None else float(width) / 2):
                want.append((p, group if own else None, prio if own else 0))
        why = differ(got[0], want, axis)
    except Unknown:
        rep.skip(key)
        return
    except Fails as e:
        why = f"fails: {e}"
    rep.check(why is None, key, "VoronoiMesh2D.add_polyline", f"{key}: {why}")
