"""Voronoi meshes."""
from __future__ import annotations

import math
from fractions import Fraction
from itertools import combinations

from .. import known
from ..extmodel import CELLTYPES as CT
from ..fold import Fails, Fold, Unknown
from ..known import Known, Mesh
from .fuse import Outline

F = Fraction
QUAD, VERT, TRI = CT["QUAD"], CT["VERTEX"], CT["TRIANGLE"]
EPS = 1e-6
OPAQUE = ("extract_boundary_polygons", "decimate_rdp", "average_points", "fuse_cells")


# ---------------------------------------------------------------- plane geometry of the scenes
def circle(a, b, c):
    d = 2 * (a[0] * (b[1] - c[1]) + b[0] * (c[1] - a[1]) + c[0] * (a[1] - b[1]))
    if d == 0:
        return None
    s = [p[0] ** 2 + p[1] ** 2 for p in (a, b, c)]
    return ((s[0] * (b[1] - c[1]) + s[1] * (c[1] - a[1]) + s[2] * (a[1] - b[1])) / d,
            (s[0] * (c[0] - b[0]) + s[1] * (a[0] - c[0]) + s[2] * (b[0] - a[0])) / d)


def diagram(pts):
    """What scipy.spatial.Voronoi gives for points in general position."""
    pts = tuple(tuple(F(x) for x in p) for p in pts)
    if pts not in SEEN:
        SEEN[pts] = _diagram(pts)
    return SEEN[pts]


SEEN = {}


def _diagram(pts):
    verts, tris = [], []
    for t in combinations(range(len(pts)), 3):
        c = circle(*(pts[i] for i in t))
        if c is None:
            continue
        r = dist2(c, pts[t[0]])
        ds = [dist2(c, p) for i, p in enumerate(pts) if i not in t]
        if all(d >= r for d in ds):
            if r in ds:
                raise Unknown()
            verts.append(c)
            tris.append(t)
    ridges, ends = [], []
    for i, j in combinations(range(len(pts)), 2):
        vs = [k for k, t in enumerate(tris) if i in t and j in t]
        if len(vs) == 1:
            vs = [-1] + vs
        if vs:
            ridges.append((i, j))
            ends.append(tuple(vs))
    regions, where = [[]], []
    for i, p in enumerate(pts):
        vs = [k for k, t in enumerate(tris) if i in t]
        m = (sum(verts[k][0] for k in vs) / len(vs), sum(verts[k][1] for k in vs) / len(vs)) if vs else p
        vs.sort(key=lambda k: math.atan2(verts[k][1] - m[1], verts[k][0] - m[0]))
        if any(-1 in e for r, e in zip(ridges, ends) if i in r):
            # the infinite vertex stands between the two ends of the open chain
            open_ = [e[1] for r, e in zip(ridges, ends) if i in r and -1 in e]
            if len(vs) > 1:
                for k in range(len(vs)):
                    if vs[k - 1] in open_ and vs[k] in open_ and (len(vs) > 2 or k):
                        vs = vs[k:] + vs[:k]
                        break
            vs = [-1] + vs
        regions.append(vs)
        where.append(i + 1)
    return {"points": [list(p) for p in pts], "vertices": [list(v) for v in verts], "ridge_points": [list(r) for r in ridges],
            "ridge_vertices": [list(e) for e in ends], "regions": regions, "point_region": where}


def dist2(a, b):
    return (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2


def area(p):
    return sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1] for i in range(len(p))) / 2


def clip(poly, box):
    """The part of a polygon inside a convex one."""
    box = box if area(box) > 0 else box[::-1]
    out = list(poly)
    for i in range(len(box)):
        (ax, ay), (bx, by) = box[i - 1], box[i]

        def side(p):
            return (bx - ax) * (p[1] - ay) - (by - ay) * (p[0] - ax)
        new = []
        for j in range(len(out)):
            p, q = out[j - 1], out[j]
            s, t = side(p), side(q)
            if (s < 0) != (t < 0) and s != t:
                f = s / (s - t)
                new.append((p[0] + f * (q[0] - p[0]), p[1] + f * (q[1] - p[1])))
            if t >= 0:
                new.append(q)
        out = new
    keep = []
    for p in out:
        if not keep or abs(p[0] - keep[-1][0]) + abs(p[1] - keep[-1][1]) > 1e-9:
            keep.append(p)
    if len(keep) > 1 and abs(keep[0][0] - keep[-1][0]) + abs(keep[0][1] - keep[-1][1]) <= 1e-9:
        keep.pop()
    return keep


def nearest(seeds, i, box):
    """The points of a box nearer to seed i than to the others."""
    out = list(box)
    p = seeds[i]
    for j, q in enumerate(seeds):
        if j != i:
            m, n = ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2), (q[0] - p[0], q[1] - p[1])
            new = []
            for k in range(len(out)):
                a, b = out[k - 1], out[k]
                s, t = ((x[0] - m[0]) * n[0] + (x[1] - m[1]) * n[1] for x in (a, b))
                if (s > 0) != (t > 0) and s != t:
                    f = s / (s - t)
                    new.append((a[0] + f * (b[0] - a[0]), a[1] + f * (b[1] - a[1])))
                if t <= 0:
                    new.append(b)
            out = new
    return out


class Tessellation:
    def __init__(self, facts):
        self.facts = facts


class Shape:
    def __init__(self, pts):
        self.pts = pts


class Seeds(Outline):
    """Rectangular cells in a plane: containment, diagram, outline and intersection are those of the scene."""

    def __init__(self, ip, meshes, axis, values=None, domain=None, turn=0, lost=()):
        super().__init__(ip, meshes, values)
        self.axis, self.domain, self.turn, self.lost = axis, domain, turn, lost
        self.fused, self.broken = [], None

    def flatten(self, p):
        return tuple(x for i, x in enumerate(p) if i != self.axis)

    def inside(self, m, p):
        """The cell of *m* around *p*, -1 without."""
        u = self.flatten(p)
        for c, (t, ids) in enumerate(m.cells):
            pts = [m.points[i] for i in ids]
            if any(all(q[i] > p[i] for q in pts) or all(q[i] < p[i] for q in pts) for i in range(3)):
                continue
            if any(abs(q[self.axis] - p[self.axis]) > 1e-9 for q in pts):
                continue
            q = [self.flatten(x) for x in pts]
            if t == VERT and q[0] != u:
                continue
            if t not in (VERT, TRI, QUAD):
                raise Unknown()
            q = q if area(q) > 0 else q[::-1]
            s = [(q[i][0] - q[i - 1][0]) * (u[1] - q[i - 1][1]) - (q[i][1] - q[i - 1][1]) * (u[0] - q[i - 1][0]) for i in range(len(q))]
            if t == VERT or all(x >= 0 for x in s):
                return c
        return -1

    def do_cell_centers(self, m, a, k):
        pts = []
        for t, ids in m.cells:
            if t not in (QUAD, VERT, TRI, CT["POLYGON"]):
                raise Unknown()
            q = [m.points[i] for i in ids]
            # of a polygon any point inside: scenes only tell far from near
            pts.append([sum(x) / len(q) if not isinstance(x[0], int) else F(sum(x)) / len(q) for x in zip(*q)])
        return Mesh([(VERT, [i]) for i in range(len(pts))], points=pts, name="center")

    def do_from_irregular_faces(self, m, a, k):
        if k or len(a) != 2:
            raise Unknown()
        cells = [({3: TRI, 4: QUAD}.get(len(f), CT["POLYGON"]), list(f)) for f in a[1]]
        self.check(cells, a[0])
        return Mesh(cells, points=a[0], name="regions")

    def average(self, m):
        """Averaging points that makes the cells *lost* vanish and leaves the others."""
        if not isinstance(m, Mesh):
            raise Unknown()
        keep = [c for c in range(len(m.cells)) if c not in self.lost]
        return Mesh([m.cells[c] for c in keep], points=m.points, cell_data={"vtkOriginalCellIds": keep}, name="averaged")

    def fuse(self, t, fold):
        """A mesh that remembers which of its cells are to be one."""
        a = list(t.args[1]) + [v for _, v in t.args[2]]
        m = self.full(a[0], fold) if len(a) == 2 else None
        if m is None:
            raise Unknown()
        ind = fold.of(a[1])
        if not ind:
            self.broken = "fuses nothing"
            return m
        ind = [[c for c, x in enumerate(i) if x] if all(isinstance(x, bool) for x in i) else i for i in (ind if isinstance(ind[0], (list, tuple)) else [ind])]
        if not all(ind):
            self.broken = "fuses a set of no cells"
            return m
        out = self.dup(m)
        self.fused = ind
        return out

    def _mesh(self, t, fold):
        if t.op == "call" and t.args[0].op in ("func", "glob") and str(t.args[0].args[0]).split(".")[-1] == "fuse_cells":
            return self.fuse(t, fold)
        if t.op == "call" and t.args[0].op in ("func", "glob") and str(t.args[0].args[0]).split(".")[-1] in OPAQUE:
            return fold.of(t)
        return super()._mesh(t, fold)

    def __call__(self, t):
        v = self.special(t)
        return v if v is not None else super().__call__(t)

    def special(self, t):
        if t.op == "call":
            f = t.args[0]
            name = str(f.args[0]) if f.op in ("func", "glob") else None
            if name is not None:
                last = name.split(".")[-1]
                if last == "Voronoi":
                    return Tessellation(diagram(self.fold.of(t.args[1][0])))
                if last == "Polygon" and name.startswith("shapely"):
                    a = [self.fold.of(x) for x in t.args[1]]
                    if len(a) > 1 and a[1]:
                        raise Unknown()
                    return Shape([tuple(p[:2]) for p in a[0]])
                if last == "get_coordinates":
                    s = self.fold.of(t.args[1][0])
                    if not isinstance(s, Shape):
                        raise Unknown()
                    return [list(p) for p in s.pts + s.pts[:1]]
                if last == "extract_boundary_polygons":
                    return [[Mesh([(4, [0, 1, 2, 3, 0])], points=self.domain, name="domain")]]
                if last == "average_points":
                    return self.average(self.fold.of(t.args[1][0]))
                if last == "decimate_rdp":
                    return self.fold.of(t.args[1][0])
            if f.op == "attr" and f.args[1] == "find_containing_cell":
                m = self.full(f.args[0], self.fold)
                if m is None:
                    raise Unknown()
                return [self.inside(m, p) for p in self.fold.of(t.args[1][0])]
            if f.op == "attr" and f.args[1] == "intersection":
                a, b = self.fold.of(f.args[0]), self.fold.of(t.args[1][0])
                if isinstance(a, Shape) and isinstance(b, Shape):
                    out = clip(b.pts, a.pts)
                    out = out if area(out) < 0 else out[::-1]
                    k = self.turn % len(out) if out else 0
                    return Shape(out[k:] + out[:k])
        if t.op == "attr":
            try:
                b = self.fold.of(t.args[0])
            except (Unknown, Fails):
                return None
            if isinstance(b, Tessellation):
                return b.facts.get(t.args[1])
            if isinstance(b, Shape):
                return {"is_valid": True, "is_empty": not b.pts, "area": abs(area(b.pts)) if b.pts else 0}.get(t.args[1])
        return None


def lift(p, axis, h=0):
    p = [F(x) for x in p]
    return p[:axis] + [F(h)] + p[axis:]


def boxes(rects, axis, kind="UnstructuredGrid", h=0, **kw):
    """Cells of a plane between corners (x0, y0, x1, y1)."""
    pts, cells = [], []
    for x0, y0, x1, y1 in rects:
        ids = []
        for p in ((x0, y0), (x1, y0), (x1, y1), (x0, y1)):
            p = lift(p, axis, h)
            if p not in pts:
                pts.append(p)
            ids.append(pts.index(p))
        cells.append((QUAD, ids))
    return Mesh(cells, points=pts, kind=kind, **kw)


BRICKS = [(0, 0, 5, 4), (5, 0, 12, 4), (0, 4, 3, 9), (3, 4, 8, 9), (8, 4, 12, 9), (0, 9, 6, 11), (6, 9, 12, 11)]


def slanted(axis, at, h):
    """A square of skew quadrilaterals and triangles."""
    xy = [(0, 0), (5, 0), (11, 0), (0, 6), (4, 7), (11, 5), (0, 13), (6, 13), (11, 13)]
    pts = [lift((x + at[0], y + at[1]), axis, h) for x, y in xy]
    return Mesh([(QUAD, [0, 1, 4, 3]), (QUAD, [1, 2, 5, 4]), (QUAD, [3, 4, 7, 6]), (TRI, [4, 5, 7]), (TRI, [5, 8, 7])], points=pts, kind="UnstructuredGrid")


def rects(rs, axis, at, h, **kw):
    return boxes([(x0 + at[0], y0 + at[1], x1 + at[0], y1 + at[1]) for x0, y0, x1, y1 in rs], axis, h=h, **kw)


H = F(1, 2)
A2 = [(H, F(1, 3), 2, F(7, 2)), (2, F(1, 3), F(9, 2), F(7, 2))]
B1 = [(3, 1, 9, 8)]
B2 = [(F(7, 2), F(9, 2), F(23, 3), F(19, 3)), (F(7, 2), F(19, 3), F(23, 3), F(17, 2))]
HALF = [(9, 5, 11, 7), (11, 5, 15, 8), (7, 5, 9, F(15, 2))]
OUT = [(20, 30, 21, 33), (21, 30, 25, 33)]
AROUND = [(5, 3, 40, 8)]
# (cells or points of the item, priority, group)
CASES = {
    "nothing": [],
    "an item": [(A2, 1, "A")],
    "without priority": [(B2, None, None)],
    "partly outside": [(HALF, 2, "A")],
    "outside": [(OUT, 1, "A")],
    "outside with another": [(OUT, 0, "O"), (A2, 1, "A"), (B2, 0, "B")],
    "centered outside but over some": [(AROUND, 5, "A")],
    "over the same place": [(B2, 0, "A"), (B1, 0, "B")],
    "lower over higher": [(B2, 3, "A"), (B1, 1, "B")],
    "higher over lower": [(B1, 1, "A"), (B2, 3, "B")],
    "equal, the second yielding": [(B2, 1, "A"), (B1, -1, "B")],
    "equal, the first yielding": [(B2, -1, "A"), (B1, 1, "B")],
    "lower yielding": [(B2, 2, "A"), (B1, -1, "B")],
    "higher yielding": [(B2, 1, "A"), (B1, -2, "B")],
    "three": [(A2, 2, "A"), (B1, 1, "B"), (B2, -3, "A")],
    "points": [([(1, 1), (F(13, 2), 6), (F(17, 2), F(26, 3))], 1, "P")],
    "points, some outside": [([(30, 1), (F(13, 2), 6), (F(17, 2), F(26, 3))], 1, "P"), (A2, 1, None)],
    "points under cells": [([(4, F(11, 2)), (F(25, 3), F(26, 3))], 0, "P"), (B2, 0, "B")],
    "ignored group": [("own", 1, None), (B2, 1, "B")],
    "own groups": [("own", 1, None), (B2, 1, "B")],
}


def run(rep, ip, tier):
    """VoronoiMesh2D.generate_mesh on small meshes in the three coordinate planes: items with all orders of priority, in the mesh, partly and wholly outside,
    cells, points, named and unnamed; cells that vanish; both orientations. Containment, the Voronoi diagram, the outline and intersections are those of
    the scene (computed from the coordinates the code passes); cells, their seeds and their groups are compared with the parts of the
    domain nearest to each remaining seed."""
    rep.rule("seeds: centers (or points) of the mesh that no item of the same or higher priority covers, and centers of item cells inside the mesh; an item with "
             "negative priority covers only lower ones; items outside add nothing")
    rep.rule("one cell per seed, the part of the domain nearest to it, turned as asked, with the coordinates and the group of its seed")
    for name in CASES:
        for axis in (0, 1, 2):
            for at in ((0, 0), (-40, 17)):
                if tier != "quick" or (axis + bool(at[0])) % 2 == 0:
                    one(rep, ip, name, axis, at)
    for name in ("nothing", "an item", "three", "points"):
        for orient in ("CCW", "CW"):
            for turn in (0, 1, 2):
                for at in ((0, 0), (50, -20)):
                    if tier != "quick" or bool(at[0]) == (turn == 1):
                        one(rep, ip, name, 2, at, orient=orient, turn=turn)
        for axis in (0, 1, 2):
            one(rep, ip, name, axis, (3, 1), pref="point")
            one(rep, ip, name, axis, (3, 1), pref="point", orient="CW")
        for lost in ((0,), (2, 5), (1, 2, 3)):
            one(rep, ip, name, 2, (0, 0), lost=lost)
            one(rep, ip, name, 1, (-4, 9), lost=lost)
        one(rep, ip, name, 2, (0, 0), infinity=700)
        one(rep, ip, name, 0, (0, 0), default="D")
        for fuse in (("none",), ("all",), ("none", "all"), ("all", "none", "none")):
            one(rep, ip, name, 2, (0, 0), fuse=fuse)
    for bad in ("orientation='cw'", "orientation=None"):
        key = f"VoronoiMesh2D:{bad}"
        leaf = Seeds(ip, {"m": rects(BRICKS, 2, (0, 0), 0)}, 2, domain=corners(2, (0, 0)))
        r = known.run(ip, f"v = VoronoiMesh2D(m)\nout = v.generate_mesh({bad})", {"m": {"types": ["UnstructuredGrid"]}}, leaf, opaque=OPAQUE)
        rep.saw(r)
        if r.final is not None and not known.accepted(r):
            rep.skip(key)
            continue
        rep.check(r.final is None, key, "VoronoiMesh2D", f"{key}: accepted")


def corners(axis, at, size=(12, 11)):
    w, h = size
    return [lift((x + at[0], y + at[1]), axis) for x, y in ((0, 0), (w, 0), (w, h), (0, h))]


def center(pts):
    return [sum(x) / len(pts) for x in zip(*pts)]


def one(rep, ip, name, axis, at, orient=None, turn=0, pref=None, lost=None, infinity=None, default=None, fuse=()):
    key = f"VoronoiMesh2D:{name}:{'xyz'[axis]}:{at}:" + ":".join(str(x) for x in (orient, turn, pref, lost, infinity, default))
    key += "".join(f":fuse {x}" for x in fuse)
    h = 4
    base = slanted(axis, at, h) if pref == "point" else rects(BRICKS, axis, at, h)
    domain = corners(axis, at, (11, 13) if pref == "point" else (12, 11))
    flat = [x for x in base.points]
    meshes, values, params, src = {"m": base}, {}, {"m": {"types": ["UnstructuredGrid"]}}, []
    kw = f"axis={axis}" + (f", preference={pref!r}" if pref else "") + (f", default_group={default!r}" if default else "")
    src.append(f"v = VoronoiMesh2D(m, {kw}" + (", ignore_groups=['u'])" if name == "ignored group" else ")"))
    items = []
    for i, (what, prio, group) in enumerate(CASES[name]):
        n = f"i{i}"
        if what == "own":
            m = rects(A2, axis, at, -2, cell_data={"CellGroup": [7, 3]}, user={"CellGroup": {"u": 3, "t": 7}})
        elif len(what[0]) == 2:
            m = Mesh([(VERT, [k]) for k in range(len(what))], points=[lift((x + at[0], y + at[1]), axis, -2) for x, y in what])
        else:
            m = rects(what, axis, at, -2)
        if m.kind == "PolyData":
            values[n] = m.points
            params[n] = {"types": ["ndarray"]}
        else:
            meshes[n] = m
            params[n] = {"types": ["UnstructuredGrid"]}
        src.append(f"v.add({n}" + (f", priority={prio}" if prio is not None else "") + (f", group={group!r}" if group else "") + ")")
        items.append((m, prio or 0, group, what == "own" and ("default" if name == "ignored group" else "u")))
    src += [f"v.fuse_cells.append(lambda x: x[:, {(axis + 1) % 3}] {'<' if x == 'all' else '>'} 1000000.0)" for x in fuse]
    args = [f"min_length={'0.001' if lost else '0.0'}"] + ([f"orientation={orient!r}"] if orient else []) + ([f"infinity={infinity}.0"] if infinity else [])
    src.append(f"out = v.generate_mesh({', '.join(args)})")
    leaf = Seeds(ip, meshes, axis, values=values, domain=domain, turn=turn, lost=lost or ())
    r = known.run(ip, "\n".join(src), params, leaf, opaque=OPAQUE)
    rep.saw(r)
    if r.final is None:
        rep.bad(key, "VoronoiMesh2D", f"{key}: refused")
        return
    if not known.accepted(r):
        rep.skip(key)
        return
    want = seeds(leaf, base, items, pref, default)
    ip.st = r.final
    leaf.fold = fold = Fold(ip, leaf)
    try:
        out = leaf.full(r.env["out"], fold)
        if out is None:
            rep.skip(key)
            return
        why = leaf.broken or compare(leaf, out, want, domain, orient or "CCW", lost or ())
        asked = [list(range(len(out.cells))) for x in fuse if x == "all"]
        if why is None and [sorted(x) for x in leaf.fused] != asked:
            why = f"cells fused are {leaf.fused} instead of {asked}"
    except Unknown:
        rep.skip(key)
        return
    except Fails as e:
        why = f"fails: {e}"
    rep.check(why is None, key, "VoronoiMesh2D", f"{key}: {why}")


def seeds(leaf, base, items, pref, default):
    """[(place in the plane, group)] of the cells expected, in order."""
    flat = Known.dup(base)
    flat.points = [lift(leaf.flatten(p), leaf.axis) for p in base.points]
    pts = flat.points if pref == "point" else [center([flat.points[i] for i in ids]) for _, ids in flat.cells]
    none = default or "default"
    live = [[p, none, -math.inf, True] for p in pts]
    for m, prio, group, own in sorted(items, key=lambda x: abs(x[1])):
        m = Known.dup(m)
        m.points = [lift(leaf.flatten(p), leaf.axis) for p in m.points]
        mids = [center([m.points[i] for i in ids]) for _, ids in m.cells]
        keep = [c for c, p in enumerate(mids) if leaf.inside(flat, p) != -1]
        if not keep:
            continue
        m = Mesh([m.cells[c] for c in keep], points=m.points)
        for s in live:
            if m.cells[0][0] != VERT and leaf.inside(m, s[0]) != -1 and (s[2] <= abs(prio) if prio >= 0 else s[2] < abs(prio)):
                s[3] = False
        for c in keep:
            live.append([mids[c], ("t", own)[c] if own else group or none, abs(prio), True])
    return [(leaf.flatten(p), g) for p, g, _, on in live if on]


def compare(leaf, out, want, domain, orient, lost):
    box = [leaf.flatten(p) for p in domain]
    kept = [i for i in range(len(want)) if i not in lost]
    if len(out.cells) != len(kept):
        return f"gives {len(out.cells)} cells for {len(kept)} seeds"
    names = {v: k for k, v in out.user.get("CellGroup", {}).items()}
    for c, i in enumerate(kept):
        seed, group = want[i]
        place = lift(seed, leaf.axis)
        got = [out.cell_data.get(n, [None] * len(kept))[c] for n in "XYZ"]
        if None in got or not near(got, place):
            return f"cell {c} is recorded for the seed {show(got)} instead of {show(place)}"
        if "CellGroup" not in out.cell_data or names.get(out.cell_data["CellGroup"][c]) != group:
            return f"cell {c} is in group {names.get(out.cell_data.get('CellGroup', [None] * len(kept))[c])!r} instead of {group!r}"
        pts = [out.points[k] for k in out.cells[c][1]]
        if any(abs(p[leaf.axis]) > EPS for p in pts):
            return f"cell {c} is out of the plane"
        exp = nearest([w[0] for w in want], i, box)
        exp = tidy(exp)
        mine = tidy([leaf.flatten(p) for p in pts])
        if len(exp) != len(mine) or not any(all(near(a, b) for a, b in zip(exp[k:] + exp[:k], m)) for m in (mine, mine[::-1]) for k in range(len(exp))):
            return f"cell {c} of seed {show(seed)} is {' '.join(map(show, mine))} instead of {' '.join(map(show, exp))}"
        if (area(mine) > 0) != (orient == "CCW"):
            return f"cell {c} is not oriented {orient}"
    return None


def tidy(p):
    out = []
    for x in p:
        if not out or not near(x, out[-1]):
            out.append(x)
    if len(out) > 1 and near(out[0], out[-1]):
        out.pop()
    return out


def near(a, b):
    return len(a) == len(b) and all(abs(float(x) - float(y)) < EPS for x, y in zip(a, b))


def show(p):
    return "(" + ", ".join("?" if x is None else f"{float(x):.6g}" for x in p) + ")"
