"""Scenes with meshes whose cells are known and whose coordinates and data are labels.

`Known` is a leaf for `fold.Fold`: attributes of the meshes, and of meshes built from them by pyvista calls, are given as
values. `expander` lets the interpreter take loops over them cell by cell.
"""
from __future__ import annotations

from .extmodel import CELLTYPES, MESHES
from .fold import Fails, Fold, Label, Unknown
from .terms import DELETED, Term, cval, const, is_glob, mk, subterms

NAMES = {v: k for k, v in CELLTYPES.items()}
CONTAINERS = ("point_data", "cell_data", "user_dict")
COPIES = ("copy", "cast_to_unstructured_grid", "cast_to_structured_grid", "clean")
VERTS, LINES, FACES = {1, 2}, {3, 4}, {5, 6, 7, 8, 9}


class Mesh:
    def __init__(self, cells, n=None, points=None, point_data=None, cell_data=None, kind="PolyData", name="p", polyhedra=None,
                 user=None):
        self.cells = [(t, list(ids)) for t, ids in cells]
        n = n if n is not None else max((i for _, ids in self.cells for i in ids), default=-1) + 1
        self.points = points if points is not None else [[Label(f"{name}{i}{c}") for c in "xyz"] for i in range(n)]
        self.point_data, self.cell_data = dict(point_data or {}), dict(cell_data or {})
        self.kind, self.name, self.polyhedra, self.user = kind, name, polyhedra or {}, user or {}
        self.merged = False

    def pick(self, keep):
        """The cells numbered *keep*, with the points they use, in order of first use."""
        ids, cells = [], []
        for c in keep:
            for i in self.cells[c][1]:
                if i not in ids:
                    ids.append(i)
            cells.append((self.cells[c][0], [ids.index(i) for i in self.cells[c][1]]))
        m = Mesh(cells, points=[self.points[i] for i in ids], kind=self.kind, name=self.name,
                 point_data={k: [v[i] for i in ids] for k, v in self.point_data.items()},
                 cell_data={k: [v[c] for c in keep] for k, v in self.cell_data.items()}, user=dict(self.user))
        return m

    def flat(self, types=None):
        return [x for t, ids in self.cells if types is None or t in types for x in [len(ids)] + ids]

    def of(self, types):
        return [list(ids) for t, ids in self.cells if t in types]


class Cell:
    def __init__(self, mesh, i):
        self.mesh, self.i = mesh, i
        self.type, self.ids = mesh.cells[i]


class Array:
    """A VTK cell array."""

    def __init__(self, rows):
        self.rows = rows


def decode(flat):
    """Rows of a padded list [n, i1 .. in, m, ...]."""
    out, pos = [], 0
    while pos < len(flat):
        n = flat[pos]
        if type(n) is not int or n < 0 or pos + 1 + n > len(flat):
            raise Fails("malformed cell list")
        out.append(list(flat[pos + 1:pos + 1 + n]))
        pos += 1 + n
    return out


def is_ints(v):
    return all(type(x) is int for x in v)


class Known:
    def __init__(self, ip, meshes, values=None):
        self.ip, self.meshes, self.values = ip, meshes, values or {}
        self.memo = {}

    # -- meshes
    def mesh(self, t, fold):
        heap = fold.heap
        key = (t, id(heap))
        if key in self.memo:
            return self.memo[key][0]
        v = self._mesh(t, fold)
        if v is not None and v is not False and not isinstance(v, Mesh):
            v = None
        if t.op in ("sym", "call"):
            self.memo[key] = (v, heap)
        return v

    def _mesh(self, t, fold):
        if t.op == "sym":
            return self.meshes.get(t.args[0])
        if t.op == "phi":
            try:
                return self.mesh(t.args[1] if fold.truth(t.args[0]) else t.args[2], fold)
            except (Unknown, Fails):
                return None
        if t.op == "dup":
            return self.mesh(t.args[0], fold)
        if t.op == "index" and t.args[0].op == "sym" and t.args[1].op == "const":
            v = self.values.get(t.args[0].args[0])
            if isinstance(v, (list, tuple)) and type(cval(t.args[1])) is int:
                v = v[cval(t.args[1])]
                return v if isinstance(v, Mesh) else None
        if t.op == "index" and t.args[0].op == "call":
            try:
                v = fold.of(t)
            except (Unknown, Fails):
                return None
            return v if isinstance(v, Mesh) else None
        if t.op != "call":
            return None
        f, args, kw = t.args[0], t.args[1], dict(t.args[2])
        if f.op == "glob":
            g = getattr(self, "new_" + f.args[0].split(".")[-1], None) if f.args[0].startswith("pyvista.") else None
            if g is None:
                return None
            return self.moved(g([fold.of(x) for x in args], {k: fold.of(v) for k, v in kw.items() if k not in ("deep", "force_float")}),
                              t, fold)
        if f.op == "attr":
            g = getattr(self, "do_" + f.args[1], None)
            if g is None:
                return None
            ts = self.ip.types(f.args[0])
            # data given to a mesh before it is copied are on the heap for the copy as well
            follows = f.args[1] in COPIES and ts is not None and ts <= MESHES
            b = self.placed(f.args[0], fold) if follows else self.full(f.args[0], fold)
            if b is None:
                return None
            return self.moved(g(b, [fold.of(x) for x in args], {k: fold.of(v) for k, v in kw.items()}), t, fold)
        return None

    def moved(self, m, t, fold):
        pts = fold.heap.get(("attr", t, "points"))
        if m is not None and pts is not None:
            m = self.dup(m)
            m.points = self.given(("attr", t, "points"), fold)
        return m

    def given(self, key, fold):
        """The value an attribute was given, computed from what it was before."""
        v = fold.heap[key]
        return self.earlier(key, fold, v) if self.renewed(key, v) else fold.of(v)

    @staticmethod
    def renewed(key, v):
        """Whether an attribute was given a value computed from its own."""
        return any(x.op == "attr" and x.args == key[1:] for x in subterms(v))

    def earlier(self, key, fold, t):
        """The value of a term before the attribute was set."""
        h = dict(fold.heap)
        del h[key]
        sub = Fold(self.ip, self, heap=h)
        sub.loops = dict(fold.loops)
        try:
            return sub.of(t)
        finally:
            self.fold = fold

    @staticmethod
    def dup(m):
        out = Mesh(m.cells, points=m.points, point_data=m.point_data, cell_data=m.cell_data, kind=m.kind, name=m.name,
                   polyhedra=m.polyhedra, user=dict(m.user))
        out.merged = m.merged
        return out

    def placed(self, t, fold):
        """The mesh a term stands for with its points as they were changed in place."""
        m = self.mesh(t, fold)
        pts = fold.heap.get(("arr", mk("attr", t, "points"))) if m is not None else None
        if pts is not None:
            m = self.dup(m)
            m.points = fold.of(pts)
        return m

    def full(self, t, fold):
        """The mesh a term stands for with all its data, also those assigned after it was made."""
        m = self.placed(t, fold)
        if m is None:
            return None
        out = self.dup(m)
        if t.op == "phi":
            return self.full(t.args[1] if fold.truth(t.args[0]) else t.args[2], fold)
        mine = [(k, v) for k, v in fold.heap.items() if k[0] in ("item", "gen", "from", "cleared") and k[1].op == "attr"
                and k[1].args[0] is t and k[1].args[1] in CONTAINERS]
        for k, v in sorted(mine, key=lambda x: ["cleared", "from", "gen", "item"].index(x[0][0])):
            d = {"point_data": out.point_data, "cell_data": out.cell_data, "user_dict": out.user}[k[1].args[1]]
            if k[0] == "cleared":
                d.clear()
            elif k[0] == "from":
                d.update(fold.deref(v))
            elif k[0] == "gen":
                raise Unknown()
            else:
                name = fold.of(k[2])
                if v is DELETED:
                    d.pop(name, None)
                else:
                    d[name] = fold.deref(v)
        return out

    def new_PolyData(self, a, k):
        pts = k.pop("var_inp", a[0] if a else [])
        cells, given = [], len(k)
        for key, one, more in (("verts", 1, 2), ("lines", 3, 4), ("faces", 5, 7)):
            v = k.pop(key, None)
            if key == "faces" and v is None and len(a) > 1:
                v = a[1]
            if v is None:
                continue
            if v and isinstance(v[0], list):
                v = [x for r in v for x in r]
            for ids in decode(v):
                cells.append(((3 if len(ids) == 2 else 4) if key == "lines" else (1 if len(ids) == 1 else 2) if key == "verts"
                              else {3: 5, 4: 9}.get(len(ids), 7), ids))
        if k:
            raise Unknown()
        if given == 0 and len(a) < 2:
            cells = [(1, [i]) for i in range(len(pts))]
        self.check(cells, pts)
        return Mesh(cells, points=pts, name="new")

    def new_UnstructuredGrid(self, a, k):
        if k or len(a) != 3 or not isinstance(a[0], list) or not is_ints(a[1]):
            raise Unknown()
        rows = decode(a[0])
        if len(rows) != len(a[1]):
            raise Fails("different numbers of cells and cell types")
        cells = list(zip(a[1], rows))
        self.check([c for c in cells if c[0] != 42], a[2])
        return Mesh(cells, points=a[2], kind="UnstructuredGrid", name="new")

    def new_MultipleLines(self, a, k):
        pts = k.pop("points", a[0] if a else None)
        if k or not isinstance(pts, list):
            raise Unknown()
        n = len(pts)
        return Mesh([(3 if n == 2 else 4, range(n))], points=pts, name="new")

    def new_lines_from_points(self, a, k):
        pts = k.pop("points", a[0] if a else None)
        close = k.pop("close", a[1] if len(a) > 1 else False)
        if k or not isinstance(pts, list) or not isinstance(close, bool):
            raise Unknown()
        n = len(pts)
        return Mesh([(3, [i, (i + 1) % n]) for i in range(n if close else n - 1)], points=pts, name="new")

    @staticmethod
    def check(cells, pts):
        for _, ids in cells:
            if not is_ints(ids):
                raise Unknown()
            if any(not 0 <= i < len(pts) for i in ids):
                raise Fails("cell refers to a point that does not exist")

    def do_copy(self, m, a, k):
        return m

    def do_cast_to_unstructured_grid(self, m, a, k):
        out = Mesh(m.cells, points=m.points, point_data=m.point_data, cell_data=m.cell_data, kind="UnstructuredGrid", name=m.name,
                   polyhedra=m.polyhedra, user=m.user)
        return out

    def do_merge_points(self, m, a, k):
        out = self.do_cast_to_unstructured_grid(m, a, k)
        out.kind, out.merged = m.kind, True
        return out

    do_clean = do_merge_points

    def do_extract_cells_by_type(self, m, a, k):
        types = a[0] if a else k["cell_types"]
        types = list(types) if isinstance(types, (list, tuple, set)) else [types]
        if not is_ints(types):
            raise Unknown()
        return m.pick([i for i, (t, _) in enumerate(m.cells) if t in types])

    # -- values
    def __call__(self, t):
        fold = self.fold
        if t.op == "sym" and t.args[0] in self.values:
            return self.values[t.args[0]]
        if t.op == "isinst":
            m = self.mesh(t.args[0], fold)
            if m is not None:
                return bool({m.kind, "DataSet"} & set(t.args[1]) or "PointSet" in t.args[1])
            return None
        if t.op == "index" and t.args[0].op == "attr" and t.args[0].args[1] in CONTAINERS and t.args[1].op == "const":
            # what the container held to begin with; what it was given since then is on the heap
            m = self.mesh(t.args[0].args[0], fold)
            if m is not None:
                d = self.attr(m, t.args[0].args[1])
                if cval(t.args[1]) not in d:
                    raise Fails("no such data")
                return d[cval(t.args[1])]
        if t.op == "attr":
            b, n = t.args
            if ("attr", t.args[0], n) in fold.heap:
                key, v = ("attr", b, n), fold.heap["attr", b, n]
                # after the assignment the name is read as the value given; what is left of the attribute is what it was
                return self.earlier(key, fold, t) if self.renewed(key, v) else fold.of(v)
            m = self.mesh(b, fold)
            if m is not None:
                return self.attr(self.full(b, fold) if n in ("point_data", "cell_data", "user_dict") else m, n)
            if n in ("type", "points", "point_ids", "n_points", "name") and b.op in ("index", "attr", "elem"):
                c = self.cell(b, fold)
                if c is not None:
                    return self.cell_attr(c, n)
                if n == "name" and b.op == "attr" and b.args[1] == "type":
                    c = self.cell(b.args[0], fold)
                    if c is not None:
                        return NAMES[c.type]
            return None
        if t.op == "call":
            f = t.args[0]
            if f.op == "glob" and f.args[0].endswith("_get_irregular_cells"):
                v = fold.of(t.args[1][0])
                return [list(r) for r in v.rows] if isinstance(v, Array) else None
            if f.op == "attr" and f.args[1] in ("GetLines", "GetCells", "GetPolys", "GetVerts", "GetPolyhedronFaces",
                                               "GetPolyhedronFaceLocations"):
                m = self.mesh(f.args[0], fold)
                return self.array(m, f.args[1]) if m is not None else None
            m = self.mesh(t, fold)
            if m is not None:
                return m
        return None

    def array(self, m, name):
        if name == "GetCells":
            return Array([ids for _, ids in m.cells])
        if name == "GetPolyhedronFaces":
            return Array([f for c in sorted(m.polyhedra) for f in m.polyhedra[c]])
        if name == "GetPolyhedronFaceLocations":
            out, n = [], 0
            for c in range(len(m.cells)):
                k = len(m.polyhedra.get(c, ()))
                out.append(list(range(n, n + k)))
                n += k
            return Array(out)
        types = {"GetLines": LINES, "GetPolys": FACES, "GetVerts": VERTS}[name]
        return Array(m.of(types))

    def cell(self, t, fold):
        if t.op != "index":
            return None
        try:
            v = fold.of(t)
        except (Unknown, Fails):
            return None
        return v if isinstance(v, Cell) else None

    def cell_attr(self, c, n):
        return {"type": c.type, "point_ids": list(c.ids), "n_points": len(c.ids), "points": [list(c.mesh.points[i]) for i in c.ids],
                "name": None}[n]

    def attr(self, m, n):
        if n == "points":
            return [list(p) for p in m.points]
        if n in ("n_points", "number_of_points"):
            return len(m.points)
        if n in ("n_cells", "number_of_cells"):
            return len(m.cells)
        if n == "n_lines":
            return len(m.of(LINES))
        if n == "n_verts":
            return len(m.of(VERTS))
        if n in ("n_faces_strict",):
            return len(m.of(FACES))
        if n == "lines":
            return m.flat(LINES)
        if n == "faces" and m.kind == "PolyData":
            return m.flat(FACES)
        if n == "irregular_faces":
            return m.of(FACES)
        if n == "cells" and m.kind == "UnstructuredGrid":
            return m.flat()
        if n == "celltypes" and m.kind == "UnstructuredGrid":
            return [t for t, _ in m.cells]
        if n == "cell_connectivity":
            return [i for _, ids in m.cells for i in ids]
        if n == "offset":
            out = [0]
            for _, ids in m.cells:
                out.append(out[-1] + len(ids))
            return out
        if n == "cell":
            return [Cell(m, i) for i in range(len(m.cells))]
        if n in ("point_data", "cell_data", "user_dict"):
            return dict({"point_data": m.point_data, "cell_data": m.cell_data, "user_dict": m.user}[n])
        return None


def oracle(ip, leaf):
    def assume(c, *a):
        try:
            return Fold(ip, leaf).truth(c)
        except (Unknown, Fails):
            return None
    return assume


def expander(ip, leaf, limit=64):
    """Elements of an iterable whose value is known in the scene."""
    busy = set()

    def expand(t):
        if t in busy or t.op in ("const",):
            return None
        busy.add(t)
        try:
            return go(t)
        except (Unknown, Fails):
            return None
        finally:
            busy.discard(t)

    def go(t):
        f = t.args[0] if t.op == "call" else None
        if f is not None and f.op == "attr" and f.args[1] in ("items", "values", "keys") and not t.args[1]:
            d = Fold(ip, leaf)(f.args[0])
            if not isinstance(d, dict) or not all(isinstance(k, (str, int)) for k in d):
                return None
            ks = [const(k) for k in d]
            vs = [ip.getitem(f.args[0], k, None) for k in ks] if f.args[1] != "keys" else ks
            return {"keys": ks, "values": vs, "items": [mk("tuple", k, v) for k, v in zip(ks, vs)]}[f.args[1]]
        v = Fold(ip, leaf)(t)
        if isinstance(v, (dict, set)):
            v = sorted(v, key=repr) if isinstance(v, set) else list(v)
            return [const(x) for x in v] if all(isinstance(x, (str, int)) for x in v) else None
        if not isinstance(v, (list, tuple)) or len(v) > limit:
            return None
        return [plain(x) or mk("index", t, const(i)) for i, x in enumerate(v)]

    def plain(x):
        if x is None or isinstance(x, (int, str)):
            return const(x)
        if isinstance(x, tuple):
            ys = [plain(y) for y in x]
            return mk("tuple", *ys) if all(ys) else None
        return None

    def value(t):
        return Fold(ip, leaf)(t)

    expand.value, expand.plain = value, plain
    return expand


def accepted(r):
    """Whether the call certainly returns: no path ends with an error raised on purpose."""
    return r.final is not None and not any(x[2] for x in r.exc_exits)


def run(ip, src, params, leaf, **kw):
    return ip.run(src, params, assume=oracle(ip, leaf), expand=expander(ip, leaf), **kw)
