"""Averaging points that lie together; fusing cells."""
from __future__ import annotations

from fractions import Fraction

from .. import known
from ..extmodel import CELLTYPES as CT
from ..fold import Fails, Fold, Label, Unknown
from ..known import Known, Mesh
from ..terms import is_glob

F = Fraction
TRI, QUAD, POLY, EMPTY, LINE = CT["TRIANGLE"], CT["QUAD"], CT["POLYGON"], CT["EMPTY_CELL"], CT["LINE"]


def run(rep, ip, tier):
    """Surfaces and point clouds of a few cells with exact coordinates (average_points; the pairs found by the k-d tree are given in
    several orders) or labels (fuse_cells; the outline of the selection is given), loops taken pair by pair and cell by cell."""
    rep.rule("average_points: points linked by a chain of close pairs become their mean; faces keep their order without repeated points; collapsed faces go, the others remember their number")
    rep.rule("fuse_cells: each selection becomes one polygon in the place, and with the data, of its first cell; all other cells stay in order with their points and data")
    averaged(rep, ip)
    fused(rep, ip)


class Pairs(Known):
    def __init__(self, ip, meshes, order):
        super().__init__(ip, meshes)
        self.order = order

    def __call__(self, t):
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "query_pairs":
            tree = t.args[0].args[0]
            fold = self.fold
            if tree.op == "call" and is_glob(tree.args[0], "scipy.spatial.KDTree", "scipy.spatial.cKDTree") and len(tree.args[1]) == 1:
                kw = dict(t.args[2])
                pts, tol = fold.of(tree.args[1][0]), fold.of(t.args[1][0] if t.args[1] else kw["r"])
                n = len(pts)
                ps = [(i, j) for i in range(n) for j in range(i + 1, n) if sum((x - y) ** 2 for x, y in zip(pts[i], pts[j])) <= F(tol) ** 2]
                return self.order(ps)
        return super().__call__(t)

    def do_from_irregular_faces(self, m, a, k):
        pts, faces = a[0] if a else k["points"], a[1] if len(a) > 1 else k["faces"]
        cells = [({3: TRI, 4: QUAD}.get(len(f), POLY), list(f)) for f in faces]
        self.check(cells, pts)
        return Mesh(cells, points=pts, name="new")


ORDERS = {"as listed": lambda p: p, "backwards": lambda p: p[::-1], "odd first": lambda p: p[1::2] + p[::2], "from the middle": lambda p: p[len(p) // 2:] + p[:len(p) // 2],
          "third": lambda p: p[2::3] + p[::3] + p[1::3]}
# coordinates: pairs at distance 1 along x, else far apart
CLOUDS = {
    "none close": [0, 10, 20, 30, 40, 50, 60],
    "one pair": [0, 10, 20, 30, 21, 50, 60],
    "chain": [0, 3, 1, 20, 2, 30, 40],
    "two chains": [1, 10, 0, 11, 2, 12, 13],
    "long chain": [0, 2, 4, 6, 1, 3, 5],
    "all far but ends": [0, 10, 20, 30, 40, 50, 1],
    "uneven": [0, 1, 20, 30, F(5, 4), 40, 50],
    "uneven, long": [0, F(9, 10), 20, F(3, 2), F(5, 4), 2, F(27, 10)],
    "chain and pair": [5, 7, 30, 6, 31, 8, 60],
}
FACES = {
    "triangles": [(TRI, [0, 1, 2]), (TRI, [2, 1, 3]), (TRI, [4, 5, 6]), (TRI, [3, 4, 0])],
    "mixed": [(QUAD, [0, 2, 4, 6]), (TRI, [1, 3, 5]), (POLY, [6, 5, 4, 3, 2]), (QUAD, [0, 1, 3, 2])],
    "polygon": [(POLY, [0, 4, 1, 5, 2, 6, 3])],
    "cloud": [],
    "cloud with vertices": [(1, [i]) for i in range(7)],
}


def components(pts, tol):
    n = len(pts)
    lab = list(range(n))
    for _ in range(n):
        for i in range(n):
            for j in range(n):
                if sum((x - y) ** 2 for x, y in zip(pts[i], pts[j])) <= tol * tol:
                    lab[i] = lab[j] = min(lab[i], lab[j])
    return lab


def cycle(f):
    """A loop of points from a definite beginning."""
    return min(tuple(f[i:] + f[:i]) for i in range(len(f))) if f else ()


def averaged(rep, ip):
    for cname, xs in CLOUDS.items():
        pts = [[F(x), F(0), F(0)] for x in xs] if "pair" not in cname else [[F(2), F(3), F(x)] for x in xs]
        for fname, cells in FACES.items():
            for oname, order in ORDERS.items():
                if oname != "as listed" and cname in ("none close", "one pair", "all far but ends"):
                    continue
                case(rep, ip, f"average_points:{cname}:{fname}:pairs {oname}", pts, cells, order)
    for lines in ([(LINE, [0, 1])],):
        leaf = Pairs(ip, {"m": Mesh(lines + FACES["triangles"], points=[[F(x), F(0), F(0)] for x in CLOUDS["chain"]])}, ORDERS["as listed"])
        r = known.run(ip, "out = average_points(m, 1.0)", {"m": {"types": ["PolyData"]}}, leaf)
        key = "average_points:with lines"
        if r.final is not None and not known.accepted(r):
            rep.skip(key)
        else:
            rep.check(r.final is None, key, "average_points", f"{key}: lines are dropped without a word")


def case(rep, ip, key, pts, cells, order):
    leaf = Pairs(ip, {"m": Mesh(cells, n=7, points=pts)}, order)
    r = known.run(ip, "out = average_points(m, 1.0)", {"m": {"types": ["PolyData"]}}, leaf)
    rep.saw(r)
    if r.final is None:
        rep.bad(key, "average_points", f"{key}: refused")
        return
    ip.st = r.final
    lab = components(pts, 1)
    mean = {c: tuple(sum(x) / len(x) for x in zip(*(pts[i] for i in range(7) if lab[i] == c))) for c in set(lab)}
    want, ids = [], []
    for c, (t, f) in enumerate(cells):
        if t not in known.FACES:
            continue
        f = [lab[i] for i in f]
        f = [x for k, x in enumerate(f) if x != f[k - 1]] if len(set(f)) > 1 else f[:1]
        if len(f) > 2:
            want.append(cycle([mean[x] for x in f]))
            ids.append(c)
    try:
        g = leaf.full(r.env["out"], Fold(ip, leaf))
        if g is None:
            raise Unknown()
        why = None
        rows = [tuple(p) for p in g.points]
        if any(t in known.FACES for t, _ in cells):
            got = [cycle([rows[i] for i in f]) for _, f in g.cells]
            if got != want:
                why = f"faces {[[float(p[0]) for p in f] for f in got]} instead of {[[float(p[0]) for p in f] for f in want]}"
            elif g.cell_data.get("vtkOriginalCellIds") != ids:
                why = f"original cell numbers {g.cell_data.get('vtkOriginalCellIds')} instead of {ids}"
        elif sorted(set(rows)) != sorted(mean.values()):
            why = f"points {sorted(float(p[0]) for p in rows)} instead of {sorted(float(p[0]) for p in mean.values())}"
    except Unknown:
        rep.skip(key)
        return
    except Fails as e:
        why = f"fails: {e}"
    rep.check(why is None, key, "average_points", f"{key}: {why}")


class Outline(Known):
    """Extraction of cells, and the outline of the cells extracted."""

    def __init__(self, ip, meshes, values=None, backwards=False):
        super().__init__(ip, meshes, values)
        self.backwards = backwards

    def do_extract_cells(self, m, a, k):
        ind = a[0] if a else k["ind"]
        if k.get("invert"):
            raise Unknown()
        if ind and all(isinstance(x, bool) for x in ind):
            if len(ind) != len(m.cells):
                raise Fails("IndexError")
            ind = [i for i, x in enumerate(ind) if x]
        if not known.is_ints(ind) or any(not 0 <= i < len(m.cells) for i in ind):
            raise Unknown()
        out = m.pick(sorted(ind))
        out.kind = "UnstructuredGrid"
        out.cell_data["vtkOriginalCellIds"] = sorted(ind)
        return out

    def __call__(self, t):
        if t.op == "call" and t.args[0].op in ("func", "glob") and str(t.args[0].args[0]).endswith("extract_boundary_polygons"):
            m = self.fold.of(t.args[1][0])
            if not isinstance(m, Mesh):
                raise Unknown()
            return self.outlines(m)
        return super().__call__(t)

    def outlines(self, m):
        edges = {}
        for _, ids in m.cells:
            for a, b in zip(ids, ids[1:] + ids[:1]):
                if (b, a) in edges:
                    del edges[b, a]
                else:
                    edges[a, b] = True
        nxt = dict(edges)
        loops = []
        while nxt:
            a, b = min(nxt)
            loop = []
            while (a, b) in nxt:
                del nxt[a, b]
                loop.append(a)
                a, b = b, next((q for p, q in nxt if p == b), None)
            loops.append(loop[::-1] if self.backwards else loop)
        return tuple(Mesh([(4, list(range(len(l))) + [0])], points=[m.points[i] for i in l], name="outline") for l in loops)


#  12 13 14 15
#   8  9 10 11      a 3 x 3 sheet of quads on 16 points
#   4  5  6  7
#   0  1  2  3
SHEET = [(QUAD, [4 * j + i, 4 * j + i + 1, 4 * j + i + 5, 4 * j + i + 4]) for j in range(3) for i in range(3)]
FUSE = {
    "two": [0, 1], "not first": [4, 5], "unordered": [5, 2, 4], "row": [3, 4, 5], "block": [0, 1, 3, 4], "two groups": [[0, 3], [7, 8, 5]],
    "groups unordered": [[8, 7], [1, 0, 3]], "mask": [False, True, False, False, True, False, False, True, False], "three groups": [[0, 1], [3, 4], [6, 7]],
    "apart": [0, 8], "apart, different": [0, 5, 8], "corner": [0, 4],
}


def fused(rep, ip):
    for name, ind in FUSE.items():
        for kind in ("UnstructuredGrid", "PolyData"):
            for backwards in (False, True):
                for cells in ("quads", "with triangles"):
                    fuse(rep, ip, f"fuse_cells:{name}:{kind}:{cells}" + (":outline backwards" if backwards else ""), ind, kind, backwards, cells)


def fuse(rep, ip, key, ind, kind, backwards, which):
    base = SHEET if which == "quads" else SHEET[:6] + [(TRI, [8, 9, 13]), (QUAD, [9, 10, 14, 13]), (QUAD, [10, 11, 15, 14])]
    m = Mesh(base, points=[[F(i % 4 * 3 + i // 4), F(i // 4 * 5), F(i % 3)] for i in range(16)], kind=kind, name="p", cell_data={"c": [Label(f"c{i}") for i in range(9)], "v": [[Label(f"v{i}{x}") for x in "xy"] for i in range(9)]},
             point_data={"q": [Label(f"q{i}") for i in range(16)]}, user={"K": {"a": 0}})
    leaf = Outline(ip, {"m": m}, {}, backwards)
    groups = ind if isinstance(ind[0], list) else [[i for i, x in enumerate(ind) if x] if isinstance(ind[0], bool) else ind]
    r = known.run(ip, f"out = fuse_cells(m, {ind!r})", {"m": {"types": [kind]}}, leaf, opaque=("extract_boundary_polygons",))
    rep.saw(r)
    func = "fuse_cells"
    if key.startswith(("fuse_cells:apart", "fuse_cells:corner")):
        if r.final is not None and not known.accepted(r):
            rep.skip(key)
        else:
            rep.check(r.final is None, key, func, f"{key}: cells that do not touch are fused")
        return
    if r.final is None:
        rep.bad(key, func, f"{key}: refused")
        return
    ip.st = r.final
    try:
        g = leaf.full(r.env["out"], Fold(ip, leaf))
        if g is None:
            raise Unknown()
        why = compare(g, m, groups, leaf)
    except Unknown:
        rep.skip(key)
        return
    except Fails as e:
        why = f"fails: {e}"
    rep.check(why is None, key, func, f"{key}: {why}")


def compare(g, m, groups, leaf):
    gone = {i for grp in groups for i in grp[1:]}
    first = {grp[0]: grp for grp in groups}
    keep = [i for i in range(len(m.cells)) if i not in gone]
    if len(g.cells) != len(keep):
        return f"{len(g.cells)} cells instead of {len(keep)}"
    for (t, ids), c in zip(g.cells, keep):
        rows = [tuple(str(x) for x in g.points[i]) for i in ids]
        if c in first:
            sub = m.pick(sorted(first[c]))
            loop = [tuple(str(x) for x in p) for p in leaf.outlines(sub)[0].points]
            if t != POLY:
                return f"the fused cell {c} is of type {known.NAMES.get(t, t)}"
            if cycle(rows) not in (cycle(loop), cycle(loop[::-1])):
                return f"the fused cell {c} is not the outline of its cells"
        else:
            want = [tuple(str(x) for x in m.points[i]) for i in m.cells[c][1]]
            if t != m.cells[c][0] or rows != want:
                return f"cell {c} is changed"
    for k, v in m.cell_data.items():
        if g.cell_data.get(k) != [v[c] for c in keep]:
            return f"cell data {k} {g.cell_data.get(k)}"
    by = {tuple(str(x) for x in p): q for p, q in zip(m.points, m.point_data["q"])}
    got = g.point_data.get("q")
    if got is None or got != [by[tuple(str(x) for x in p)] for p in g.points]:
        return "point data do not follow their points"
    if g.user != m.user:
        return f"user data {g.user}"
    return None
