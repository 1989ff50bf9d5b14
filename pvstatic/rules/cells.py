"""Per-cell queries: vertex lists, centers, quadratic cells."""
from __future__ import annotations

from fractions import Fraction

from .. import known
from ..extmodel import CELLTYPES as CT
from ..fold import Fails, Fold, Label, Unknown
from ..known import Known, Mesh

F = Fraction
EMPTY, LINE, TRI, POLY, PIX, QUAD, TET, HEX, WEDGE, PHED = (CT[n] for n in (
    "EMPTY_CELL", "LINE", "TRIANGLE", "POLYGON", "PIXEL", "QUAD", "TETRA", "HEXAHEDRON", "WEDGE", "POLYHEDRON"))


def run(rep, ip, tier):
    """Meshes of a few cells of different types (polyhedra first, last, between others, empty cells) with labelled or generic
    rational coordinates; loops over cells are taken cell by cell, results compared row by row."""
    rep.rule("get_cell_connectivity: one entry per cell, in order: its vertices; for polyhedra its faces' vertices; flattened as UnstructuredGrid takes it")
    rep.rule("get_cell_centers: one row per cell, in order; empty cells not a number; polyhedra by the method asked for")
    rep.rule("quadraticize: same cells and vertices, plus the middle of each edge in order")
    connectivity(rep, ip)
    centers(rep, ip)
    quadratic(rep, ip)


# tetrahedron-like and wedge-like polyhedra as faces over local vertices
TETF = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]]
WEDF = [[0, 2, 1], [3, 4, 5], [0, 1, 4, 3], [1, 2, 5, 4], [2, 0, 3, 5]]
HEXF = [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]
PYRF = [[0, 3, 2, 1], [0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]]


def poly(faces, ids):
    """A polyhedron: (its vertices in order of first use, its faces)."""
    fs = [[ids[i] for i in f] for f in faces]
    seen = []
    for f in fs:
        for i in f:
            if i not in seen:
                seen.append(i)
    return seen, fs


def grid(cells, points=None, n=None, **kw):
    """cells: (type, ids) or (POLYHEDRON, faces, ids)."""
    out, faces = [], {}
    for c, x in enumerate(cells):
        if x[0] == PHED:
            ids, fs = poly(x[1], x[2])
            out.append((PHED, ids))
            faces[c] = fs
        else:
            out.append(x)
    return Mesh(out, n=n, points=points, polyhedra=faces, kind="UnstructuredGrid", **kw)


SCENES = {
    "triangle": [(TRI, [2, 0, 1])],
    "mixed": [(QUAD, [3, 1, 0, 2]), (TRI, [4, 3, 2]), (POLY, [5, 0, 4, 1, 6]), (LINE, [6, 2])],
    "solids": [(TET, [3, 0, 2, 1]), (HEX, [7, 6, 5, 4, 3, 2, 1, 0]), (WEDGE, [0, 4, 2, 6, 1, 5])],
    "polyhedron": [(PHED, TETF, [2, 0, 3, 1])],
    "polyhedra": [(PHED, TETF, [2, 0, 3, 1]), (PHED, WEDF, [5, 1, 4, 3, 2, 0])],
    "polyhedron last": [(TET, [3, 0, 2, 1]), (PHED, WEDF, [5, 1, 4, 3, 2, 0])],
    "polyhedra between": [(HEX, [7, 6, 5, 4, 3, 2, 1, 0]), (PHED, PYRF, [1, 0, 2, 3, 5]), (TET, [3, 0, 2, 1]), (PHED, TETF, [6, 4, 5, 0]), (WEDGE, [0, 4, 2, 6, 1, 5])],
    "empty": [(EMPTY, []), (TRI, [2, 0, 1]), (EMPTY, []), (QUAD, [3, 1, 0, 2])],
    "empty and polyhedra": [(PHED, TETF, [2, 0, 3, 1]), (EMPTY, []), (PHED, PYRF, [1, 0, 2, 3, 4]), (EMPTY, []), (TET, [3, 0, 2, 1])],
}


def connectivity(rep, ip):
    for name, cells in SCENES.items():
        m = grid(cells)
        want = [m.polyhedra.get(c, ids) for c, (t, ids) in enumerate(m.cells)]
        flat = []
        for c, (t, ids) in enumerate(m.cells):
            if t == PHED:
                body = [len(m.polyhedra[c])] + [x for f in m.polyhedra[c] for x in [len(f)] + f]
            else:
                body = ids
            flat += [len(body)] + body
        for flatten in (None, False, True):
            key = f"get_cell_connectivity:{name}:flatten={flatten}"
            leaf = Known(ip, {"m": m})
            r = known.run(ip, "out = get_cell_connectivity(m" + (f", flatten={flatten})" if flatten is not None else ")"),
                          {"m": {"types": ["UnstructuredGrid"]}}, leaf)
            rep.saw(r)
            if r.final is None:
                rep.bad(key, "get_cell_connectivity", f"{key}: refused")
                continue
            ip.st = r.final
            try:
                got = plain(Fold(ip, leaf)(r.env["out"]))
                exp = flat if flatten else want
                why = None if got == exp else f"gives {got} instead of {exp}"
            except Unknown:
                rep.skip(key)
                continue
            except Fails as e:
                why = f"fails: {e}"
            rep.check(why is None, key, "get_cell_connectivity", f"{key}: {why}")


def plain(v):
    return [plain(x) for x in v] if isinstance(v, (list, tuple)) else v


# generic coordinates: no two of box center, mean and centroid coincide
PTS = [(0, 0, 0), (7, 1, 0), (2, 9, 1), (1, 3, 11), (6, 8, 5), (12, 2, 7), (4, 13, 3), (9, 5, 14)]
# polyhedra with planar faces; one (dart) is not convex
SOLID = {"tet": (TETF, [(0, 0, 0), (7, 1, 0), (2, 9, 1), (1, 3, 11)]), "pyr": (PYRF, [(0, 0, 0), (6, 0, 0), (6, 4, 0), (0, 4, 0), (1, 1, 9)]),
         "wedge": (WEDF, [(0, 0, 0), (6, 0, 0), (0, 9, 0), (0, 0, 4), (6, 0, 4), (0, 9, 4)]),
         "dart": (PYRF, [(8, 0, 0), (2, 2, 0), (0, 8, 0), (0, 0, 0), (2, 1, 9)]),
         "frustum": (HEXF, [(0, 0, 0), (8, 0, 0), (8, 4, 0), (0, 4, 0), (0, 0, 6), (4, 0, 6), (4, 2, 6), (0, 2, 6)])}
CENT = {
    "first": ["tet", "T", "pyr"], "last": ["T", "E", "pyr"], "all": ["pyr", "tet", "wedge"], "none": ["T", "T"], "empty": ["E", "T", "E"],
    "between": ["T", "wedge", "E", "tet", "T"], "one": ["pyr"],
    "concave": ["T", "dart"], "quads": ["frustum", "E"],
}


def solids(kinds):
    cells, pts = [], []
    for c, k in enumerate(kinds):
        base = len(pts)
        if k == "E":
            cells.append((EMPTY, []))
        elif k == "T":
            pts += [(x + 31 * c, y, z) for x, y, z in [(0, 0, 0), (1, 5, 2), (2, 7, 9), (8, 1, 1)]]
            cells.append((TET, list(range(base, base + 4))))
        else:
            faces, local = SOLID[k]
            pts += [(x + 31 * c, y - 5 * c, z + c) for x, y, z in local]
            cells.append((PHED, faces, list(range(base, base + len(local)))))
    # numbers of the points in another order than that of the cells
    n = len(pts)
    step = next(s for s in (7, 5, 3, 1) if n % s or s == 1)
    num = [(step * i + 2) % n for i in range(n)]
    rows = [None] * n
    for i, p in zip(num, pts):
        rows[i] = [F(x) for x in p]
    cells = [(c[0], c[1], [num[i] for i in c[2]]) if c[0] == PHED else (c[0], [num[i] for i in c[1]]) for c in cells]
    return grid(cells, points=rows)


def centroid(m, c, how):
    pts = [m.points[i] for i in m.cells[c][1]]
    if how == "box":
        return [(min(x) + max(x)) / 2 for x in zip(*pts)]
    if how == "geometric":
        return [sum(x) / len(pts) for x in zip(*pts)]
    apex = pts[0]
    tot, acc = F(0), [F(0)] * 3
    for f in m.polyhedra[c]:
        q = [m.points[i] for i in f]
        for b, d in zip(q[1:], q[2:]):
            u, v, w = ([x - y for x, y in zip(p, apex)] for p in (q[0], b, d))
            vol = (u[1] * v[2] - u[2] * v[1]) * w[0] + (u[2] * v[0] - u[0] * v[2]) * w[1] + (u[0] * v[1] - u[1] * v[0]) * w[2]
            tot += vol
            acc = [s + vol * (x + y + z + a) / 4 for s, x, y, z, a in zip(acc, q[0], b, d, apex)]
    return [s / tot for s in acc]


NATIVE = {"9.4.2": "box", "9.5.0": "geometric", "9.5.2": "tetra"}   # what VTK itself does with a polyhedron


class Centers(Known):
    """VTK's cell centers are labels; polyhedra have the one of the VTK version."""

    def __init__(self, ip, meshes, version):
        super().__init__(ip, meshes)
        self.version = version

    def __call__(self, t):
        if t.op == "glob" and t.args[0] in ("vtk.__version__", "vtkmodules.__version__"):
            return self.version
        return super().__call__(t)

    def do_cell_centers(self, m, a, k):
        if a or set(k) - {"vertex", "pass_cell_data", "progress_bar"}:
            raise Unknown()
        return Mesh([], points=[self.center(m, c) for c, (t, _) in enumerate(m.cells) if t != EMPTY], name="centers")

    def center(self, m, c):
        if m.cells[c][0] == PHED:
            return centroid(m, c, NATIVE[self.version])
        return [Label(f"center{c}.{x}") for x in "xyz"]


def centers(rep, ip):
    for name, kinds in CENT.items():
        m = solids(kinds)
        for version in NATIVE:
            for method in (None, "box", "geometric", "tetra"):
                for kind in ("UnstructuredGrid", "StructuredGrid"):
                    if kind == "StructuredGrid" and (method not in (None, "box") or name != "none"):
                        continue
                    key = f"get_cell_centers:{name}:{method}:vtk {version}:{kind}"
                    mm = Known.dup(m)
                    mm.kind = kind
                    leaf = Centers(ip, {"m": mm}, version)
                    arg = "" if method is None else f", polyhedron_method={method!r}"
                    r = known.run(ip, f"out = get_cell_centers(m{arg})", {"m": {"types": [kind]}}, leaf)
                    rep.saw(r)
                    if r.final is None:
                        rep.bad(key, "get_cell_centers", f"{key}: refused")
                        continue
                    ip.st = r.final
                    want = [None if t == EMPTY else centroid(m, c, method or NATIVE[version]) if t == PHED else leaf.center(m, c)
                            for c, (t, _) in enumerate(m.cells)]
                    try:
                        got = Fold(ip, leaf)(r.env["out"])
                        why = rows(got, want)
                    except Unknown:
                        rep.skip(key)
                        continue
                    except Fails as e:
                        why = f"fails: {e}"
                    rep.check(why is None, key, "get_cell_centers", f"{key}: {why}")


def rows(got, want):
    if not isinstance(got, list) or len(got) != len(want):
        return f"{len(got)} rows instead of {len(want)}"
    for c, (g, w) in enumerate(zip(got, want)):
        if w is None:
            if not all(isinstance(x, float) and x != x for x in g):
                return f"row {c}, an empty cell, is {g}"
        elif not same(g, w):
            return f"row {c} is {g} instead of {w}"
    return None


def same(g, w):
    if len(g) != len(w):
        return False
    for x, y in zip(g, w):
        if isinstance(x, Label) or isinstance(y, Label):
            if x != y:
                return False
        elif isinstance(x, (int, float, F)) and isinstance(y, (int, float, F)):
            if not abs(float(x) - float(y)) < 1e-9:
                return False
        else:
            raise Unknown()
    return True


QUADS = {
    "triangle": [(TRI, [2, 0, 1])],
    "quad": [(QUAD, [3, 1, 0, 2])],
    "two": [(TRI, [4, 1, 0]), (QUAD, [3, 1, 0, 2])],
    "three": [(QUAD, [3, 1, 0, 2]), (QUAD, [3, 2, 4, 5]), (TRI, [5, 4, 0])],
    "quads first": [(QUAD, [3, 1, 0, 2]), (TRI, [5, 4, 0]), (TRI, [1, 4, 2]), (QUAD, [5, 3, 1, 4])],
    "triangles first": [(TRI, [5, 4, 0]), (QUAD, [3, 1, 0, 2]), (QUAD, [5, 3, 1, 4]), (TRI, [1, 4, 2]), (TRI, [0, 1, 3])],
}


def quadratic(rep, ip):
    for name, cells in QUADS.items():
        n = max(i for _, ids in cells for i in ids) + 2
        pts = [[F(x) for x in p] for p in PTS[:n]]
        m = grid(cells, points=pts)
        key = f"quadraticize:{name}"
        leaf = Known(ip, {"m": m})
        r = known.run(ip, "out = quadraticize(m)", {"m": {"types": ["UnstructuredGrid"]}}, leaf)
        rep.saw(r)
        if r.final is None:
            rep.bad(key, "quadraticize", f"{key}: refused")
            continue
        ip.st = r.final
        try:
            g = leaf.full(r.env["out"], Fold(ip, leaf))
            if g is None:
                raise Unknown()
            why = None if len(g.cells) == len(cells) else f"{len(g.cells)} cells instead of {len(cells)}"
            if why is None and g.points[:n] != pts:
                why = "the vertices are not kept"
            for c, ((t, ids), (bt, bids)) in enumerate(zip(g.cells, cells)):
                qt = CT["QUADRATIC_TRIANGLE"] if bt == TRI else CT["QUADRATIC_QUAD"]
                if why:
                    break
                if t != qt:
                    why = f"cell {c} is of type {known.NAMES.get(t, t)}"
                    continue
                mids = [[(x + y) / 2 for x, y in zip(pts[a], pts[b])] for a, b in zip(bids, bids[1:] + bids[:1])]
                if [g.points[i] for i in ids] != [pts[i] for i in bids] + mids:
                    why = f"cell {c} is not made of its vertices and the middles of its edges in order"
        except Unknown:
            rep.skip(key)
            continue
        except Fails as e:
            why = f"fails: {e}"
        rep.check(why is None, key, "quadraticize", f"{key}: {why}")
    for name, cells in {"a line": [(LINE, [0, 1])], "a polygon": [(7, [0, 1, 2, 3, 4])], "a triangle, then a tetrahedron": [(TRI, [0, 1, 2]), (10, [0, 1, 2, 3])]}.items():
        n = max(i for _, ids in cells for i in ids) + 1
        leaf = Known(ip, {"m": grid(cells, points=[[F(x) for x in p] for p in PTS[:n]])})
        r = known.run(ip, "out = quadraticize(m)", {"m": {"types": ["UnstructuredGrid"]}}, leaf)
        key = f"quadraticize:{name}"
        if r.final is not None:
            ip.st = r.final
            try:
                if not known.accepted(r) or leaf.full(r.env["out"], Fold(ip, leaf)) is None:
                    raise Unknown()
            except (Unknown, Fails):
                rep.skip(key)
                continue
        rep.check(r.final is None, key, "quadraticize", f"{key}: accepted")
