"""Cell types: dimension, faces and edges of every type, and who shares them."""
from __future__ import annotations

from ..extmodel import CELLTYPES
from ..fold import Fails, Fold, Label, Unknown, seq
from ..report import Broken
from ..terms import Term, const, is_glob, subterms

T = CELLTYPES
NAME = {v: k for k, v in T.items()}


def dimension(name):
    """Topological dimension of a VTK cell type (vtkCellType.h)."""
    if name == "EMPTY_CELL":
        return -1
    if name in ("VERTEX", "POLY_VERTEX"):
        return 0
    if name.endswith(("LINE", "_EDGE", "CURVE")):
        return 1
    if name.startswith("PARAMETRIC"):
        return 2 if "SURFACE" in name else 3
    if name.endswith(("TRIANGLE", "QUAD", "QUADRILATERAL", "POLYGON", "PIXEL", "TRIANGLE_STRIP")):
        return 2
    return 3


DIM = {v: dimension(k) for k, v in T.items()}
# faces of the linear cells, outward (vtkTetra, vtkVoxel, vtkHexahedron, vtkWedge, vtkPyramid)
FACES = {
    T["TETRA"]: (4, [(0, 1, 3), (1, 2, 3), (2, 0, 3), (0, 2, 1)]),
    T["VOXEL"]: (8, [(0, 4, 6, 2), (1, 3, 7, 5), (0, 1, 5, 4), (2, 6, 7, 3), (0, 2, 3, 1), (4, 5, 7, 6)]),
    T["HEXAHEDRON"]: (8, [(0, 4, 7, 3), (1, 2, 6, 5), (0, 1, 5, 4), (3, 7, 6, 2), (0, 3, 2, 1), (4, 5, 6, 7)]),
    T["WEDGE"]: (6, [(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)]),
    T["PYRAMID"]: (5, [(0, 3, 2, 1), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)]),
}
EDGES = {
    T["LINE"]: (2, [(0, 1)]),
    T["POLY_LINE"]: (4, [(0, 1), (1, 2), (2, 3)]),
    T["TRIANGLE"]: (3, [(0, 1), (1, 2), (2, 0)]),
    T["QUAD"]: (4, [(0, 1), (1, 2), (2, 3), (3, 0)]),
    T["POLYGON"]: (5, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)]),
    T["PIXEL"]: (4, [(0, 1), (1, 3), (3, 2), (2, 0)]),
}
POLY = [(0, 1, 2), (0, 3, 1), (1, 3, 2), (2, 3, 0)]


def rot(f):
    """A face up to its starting vertex."""
    f = tuple(f)
    i = min(range(len(f)), key=lambda j: f[j].key() if isinstance(f[j], Label) else f[j])
    return f[i:] + f[:i]


def labels(n):
    return [Label(f"v{i}") for i in range(n)]


class CellLeaf:
    """What is known about the mesh: the types of its cells, the type and vertices of the cell at hand."""

    def __init__(self, ip, types, cur=None, verts=None, extra=None):
        self.ip, self.types, self.cur, self.verts, self.extra = ip, types, cur, verts, extra
        self.memo = {}

    def __call__(self, t):
        if self.extra is not None:
            v = self.extra(t)
            if v is not None:
                return v
        if t.op == "attr" and t.args[1] == "celltypes":
            return list(self.types)
        if t.op == "elem" and self.cur is not None and self.is_types(t.args[0]):
            return self.cur
        if t.op == "index" and self.cur is not None and self.is_types(t.args[0]) and t.args[1].op in ("idx", "elem"):
            return self.cur
        if t.op in ("elem", "index") and self.verts is not None and self.conn(t.args[0]):
            if t.op == "elem" or t.args[1].op in ("idx", "elem"):
                return self.verts
        return None

    def is_types(self, t):
        if t.op == "phi":
            return self.is_types(t.args[1]) and self.is_types(t.args[2])
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("copy", "tolist"):
            return self.is_types(t.args[0].args[0])
        return t.op == "attr" and t.args[1] == "celltypes"

    def conn(self, t):
        """Is *t* the list of the cells' vertices (faces for polyhedra)?"""
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = False
            r = self.memo[t] = self._conn(t)
        return r

    def _conn(self, t):
        ip = self.ip
        if t.op == "phi":
            return self.conn(t.args[1]) and self.conn(t.args[2])
        if t.op == "mu":
            nx = ip.mu_next.get(t)
            return bool(nx) and self.conn(nx[0])
        if t.op == "store":
            return self.conn(t.args[0])
        if t.op == "obj":
            for st in (ip.st, ip.base):
                c = st.heap.get(("obj", t)) if st is not None else None
                if c is not None:
                    return self.conn(c)
            return False
        if t.op in ("call",):
            f = t.args[0]
            if is_glob(f, "builtins.list", "builtins.tuple"):
                return self.conn(t.args[1][0])
            if f.op == "glob" and f.args[0].endswith("_get_irregular_cells"):
                return any(x.op == "attr" and x.args[1] == "GetCells" for x in subterms(t.args[1][0]))
        return False


def oracle(ip, leaf):
    """Decide conditions that fold to a constant."""

    def assume(c, *a):
        try:
            return Fold(ip, leaf).truth(c)
        except (Unknown, Fails):
            return None

    return assume


def is_exc(t, name):
    if t.op == "call":
        t = t.args[0]
    return t.op == "glob" and t.args[0].split(".")[-1] == name


def run(rep, ip, tier):
    """The code's cell-type tables and the faces and edges it forms are folded for every VTK cell type, vertex numbers
    staying symbolic, and compared with the VTK definitions; the bookkeeping of who shares a face is read off the generic
    loop iteration."""
    rep.rule("get_dimension is the largest dimension of the types present; structured grids: number of directions with cells")
    rep.rule("extract_cells_by_dimension keeps exactly the cells on the requested side of ndim (empty cells if asked)")
    rep.rule("extract_cell_geometry forms exactly the faces (edges) of each supported type, and refuses the others")
    rep.rule("a face is identified by its set of vertices; each cell it belongs to is recorded")
    rep.rule("neighbours are recorded in both directions")
    dims(rep, ip)
    by_dimension(rep, ip)
    geometry(rep, ip)
    sharing(rep, ip)


# ---------------------------------------------------------------------------------------------------- dimensions
def mesh_param(kind="UnstructuredGrid", **attrs):
    return {"types": [kind], "attrs": attrs} if attrs else {"types": [kind]}


def final_value(ip, r, leaf, name="out"):
    if r.final is None:
        raise Fails("refused")
    ip.st = r.final
    return Fold(ip, leaf)(r.env[name])


def dims(rep, ip):
    combos = [(k,) for k in DIM] + [(a, b) for a in (1, 3, 5, 9, 10) for b in (0, 1, 3, 7, 12, 42) if a != b]
    for types in combos:
        leaf = CellLeaf(ip, types)
        key = "get_dimension:" + "+".join(NAME[k] for k in types)
        r = ip.run("out = get_dimension(mesh)", {"mesh": mesh_param()}, assume=oracle(ip, leaf))
        rep.saw(r)
        want = max(DIM[k] for k in types)
        try:
            got = final_value(ip, r, leaf)
        except Unknown:
            rep.skip(key)
            continue
        except Fails as e:
            got = str(e)
        rep.check(got == want, key, "get_dimension", f"dimension of {key} is {got}, should be {want}")
    for kind in ("StructuredGrid", "ImageData", "RectilinearGrid"):
        for d in [(a, b, c) for a in (1, 2, 5) for b in (1, 2, 5) for c in (1, 2, 5)]:
            key = f"get_dimension:{kind}:{d}"
            def leaf(t, d=d):
                return d if t.op == "attr" and t.args[1] == "dimensions" else None
            r = ip.run("out = get_dimension(mesh)", {"mesh": mesh_param(kind)}, assume=oracle(ip, leaf))
            want = sum(n > 1 for n in d)
            try:
                got = final_value(ip, r, leaf)
            except Unknown:
                rep.skip(key)
                continue
            except Fails as e:
                got = str(e)
            rep.check(got == want, key, "get_dimension", f"a {kind} with dimensions {d} is reported {got}D, should be {want}D")


def by_dimension(rep, ip):
    everything = sorted(DIM)
    for types in (everything, everything[::-1]):
        for method in ("upper", "lower"):
            for keep in (False, True):
                for ndim in (None, 0, 1, 2, 3):
                    leaf = CellLeaf(ip, types)
                    key = f"extract_cells_by_dimension:{method}:ndim={ndim}:keep={keep}"
                    r = ip.run("out = extract_cells_by_dimension(mesh, ndim, method, keep)",
                               {"mesh": mesh_param(), "ndim": const(ndim), "method": const(method), "keep": const(keep)},
                               assume=oracle(ip, leaf))
                    rep.saw(r)
                    n = 3 if ndim is None else ndim
                    want = [(DIM[k] >= n if method == "upper" else DIM[k] <= n) or keep and k == 0 for k in types]
                    if r.final is None:
                        rep.bad(key, "extract_cells_by_dimension", f"{key}: refused")
                        continue
                    calls = [e for e in r.events if e.kind == "call" and e.term.op == "call" and e.term.args[0].op == "attr"
                             and e.term.args[0].args[1] == "extract_cells"]
                    if all(w or k == 0 and method == "lower" for k, w in zip(types, want)):
                        rep.check(not calls, key, "extract_cells_by_dimension", f"{key}: cells dropped although all qualify")
                        continue
                    if not calls:
                        rep.bad(key, "extract_cells_by_dimension", f"{key}: nothing is extracted")
                        continue
                    try:
                        ip.st = r.final
                        f = Fold(ip, leaf)
                        t = calls[-1].term
                        got = f(t.args[1][0])
                        if dict(t.args[2]).get("invert") is not None and f(dict(t.args[2])["invert"]):
                            got = [not x for x in got]
                    except (Unknown, Fails):
                        rep.skip(key)
                        continue
                    if len(got) != len(want) or not all(isinstance(x, bool) for x in got):
                        got = [i in got for i in range(len(want))] if all(isinstance(x, int) for x in got) else got
                    # whether 'lower' takes empty cells that were not asked for is left open
                    bad = [NAME[k] for k, g, w in zip(types, got, want) if g != w and not (k == 0 and method == "lower" and not keep)]
                    rep.check(not bad, key, calls[-1].loc, f"{key}: wrong choice for cells of type {', '.join(bad[:4])}")


# ---------------------------------------------------------------------------------------------------- faces and edges
def target_list(ip, r, kw):
    """Lists that become the faces=/lines= of a PolyData: objects by identity of the heap entry."""
    out = set()
    for e in r.events:
        if e.kind == "call" and e.term.op == "call" and is_glob(e.term.args[0], "pyvista.PolyData"):
            a = e.extra["kwargs"].get(kw)
            if a is not None:
                out.add(a)
    return out


def emissions(ip, r, kw):
    objs = target_list(ip, r, kw)
    roots = set()
    for o in objs:
        for x in leaves_of(o):
            roots.add(x)
    return [e for e in r.events if e.kind == "mutate" and e.extra.get("key", ("",))[0] in ("extend", "append", "elem")
            and any(x in roots for x in leaves_of(e.term)) and e.loops]


def leaves_of(t):
    return leaves_of(t.args[1]) + leaves_of(t.args[2]) if t.op == "phi" else [t]


def geometry(rep, ip):
    done, none, seen = 0, [], set()
    for ghost in (True, False):
        for k in sorted(DIM):
            d = DIM[k]
            if d == 0:
                continue
            mates = [(k,)]
            if d == 3 or k == 0:
                mates.append((k, T["TETRA"] if k != T["TETRA"] else T["HEXAHEDRON"]))
            if d in (1, 2) or k == 0:
                mates.append((k, T["QUAD"] if k != T["QUAD"] else T["TRIANGLE"]))
            if k == 0:
                mates = mates[1:]
            for types in mates:
                got = one_type(rep, ip, k, types, ghost)
                group = (max(DIM[x] for x in types) == 3, len(types), ghost)
                if isinstance(got, str):
                    none.append((got, group, NAME[k]))
                elif got:
                    done += got
                    seen.add(group)
    for key, group, name in none:
        if group in seen:
            rep.bad(key, "extract_cell_geometry", f"nothing is made for cells of supported type {name}")
        else:
            rep.skip(key)
    if not done:
        rep.skip("extract_cell_geometry: faces of no type could be followed")


def one_type(rep, ip, k, types, ghost):
    name = NAME[k]
    top = max(DIM[x] for x in types)
    table = FACES if top == 3 else EDGES
    kw = "faces" if top == 3 else "lines"
    if k == T["POLYHEDRON"]:
        v = labels(4)
        verts = [[v[i] for i in f] for f in POLY]
        want = [rot([v[i] for i in f]) for f in POLY]
    elif k in table:
        n, fs = table[k]
        verts = labels(n)
        want = [rot([verts[i] for i in f]) for f in fs]
    else:
        verts, want = [] if k == 0 else labels(6), None
    key = f"extract_cell_geometry:{name}:{'uniform' if len(types) == 1 else 'mixed'}:ghost={ghost}"
    leaf = CellLeaf(ip, types, k, verts)
    r = ip.run("out = extract_cell_geometry(mesh, flag)", {"mesh": mesh_param(), "flag": const(ghost)}, assume=oracle(ip, leaf))
    rep.saw(r)
    evs = emissions(ip, r, kw) if r.final is not None else []
    raises = [e for e in r.events if e.kind == "raise" and isinstance(e.term, Term)]
    if want is None and k != 0:
        ok = any(is_exc(e.term, "NotImplementedError") for e in raises)
        used, open_ = [], []
        for e in evs:
            try:
                Fold(ip, leaf, e.heap)(ip.loops[e.loops[-1]][0])
                used.append(e)
            except Fails:
                pass
            except Unknown:
                open_.append(e)
        if used or not ok and (r.final is not None or raises) and not open_:
            # the cell is used, or some other error is raised
            rep.bad(key, used[0].loc if used else "extract_cell_geometry",
                    f"cells of type {name} are not supported but " + ("used" if used else "not refused with NotImplementedError"))
        elif open_:
            rep.skip(key)
        elif ok:
            rep.ok(key)
        return 0
    if k == 0:
        # nothing to add for empty cells
        bad = []
        for e in evs:
            try:
                ip.st = r.final
                fs = Fold(ip, leaf, e.heap)(ip.loops[e.loops[-1]][0])
                if fs:
                    bad.append(e)
            except (Unknown, Fails):
                pass
        rep.check(not bad and r.final is not None, key, bad[0].loc if bad else "extract_cell_geometry",
                  "faces are made for empty cells" if bad else "meshes with empty cells are refused")
        return 0
    if r.final is None:
        rep.bad(key, "extract_cell_geometry", f"cells of supported type {name} are refused")
        return 0
    if not evs:
        refused = any(is_exc(e.term, "NotImplementedError") for e in raises)
        if refused:
            rep.bad(key, "extract_cell_geometry", f"cells of supported type {name} are refused")
            return 0
        return key
    ok = 0
    for e in evs:
        L = e.loops[-1]
        try:
            fold = Fold(ip, leaf, e.heap)
            faces = fold(ip.loops[L][0])
            if not all(isinstance(f, (list, tuple)) for f in faces):
                raise Unknown()
            got = [rot(f) for f in faces]
        except Unknown:
            rep.skip(key)
            continue
        except Fails as x:
            rep.bad(key, e.loc, f"cells of supported type {name}: {x}")
            continue
        ok = 1
        if top < 3:
            same = sorted(tuple(sorted(f)) for f in got) == sorted(tuple(sorted(f)) for f in want)
        else:
            same = sorted(got) == sorted(want)
        rep.check(same, key, e.loc, f"{kw} of a {name}: {show_faces(faces)}, should be {show_faces(want)}")
        sizes(rep, ip, e, L, faces, leaf, key)
    return ok


def show_faces(fs):
    return " ".join("(" + ",".join(map(str, f)) + ")" for f in fs)


def sizes(rep, ip, e, L, faces, leaf, key):
    """What is added for the j-th face: its number of vertices, then the vertices."""
    v = e.extra.get("value")
    if not isinstance(v, Term) or e.extra["key"][0] == "append":
        return
    for j, f in enumerate(faces):
        fold = Fold(ip, leaf, e.heap)
        fold.loops[L] = j
        try:
            items = v
            if items.op == "obj":
                items = e.heap.get(("obj", items), items)
            if items.op not in ("list", "tuple"):
                return
            first = fold(items.args[0])
            if first != len(f):
                rep.bad(key + ":size", e.loc, f"a face with {len(f)} vertices is written with size {first}")
                return
            rest = fold.items(items.args[1:])
            if rot(rest) != rot(f):
                rep.bad(key + ":vertices", e.loc, f"face {show_faces([f])} is written as {show_faces([rest])}")
                return
        except (Unknown, Fails):
            return
    rep.ok(key + ":size")


# ---------------------------------------------------------------------------------------------------- sharing
def sharing(rep, ip):
    for top, types in ((3, (T["HEXAHEDRON"],)), (2, (T["QUAD"],))):
        leaf = CellLeaf(ip, types, types[0], labels(8 if top == 3 else 4))
        for ghost in (True, False):
            r = ip.run("out = extract_cell_geometry(mesh, flag)", {"mesh": mesh_param(), "flag": const(ghost)},
                       assume=oracle(ip, leaf))
            identity(rep, ip, r, leaf, top, ghost)
            collapsed(rep, ip, r, top, ghost)
            ids(rep, ip, r, leaf, top, ghost)
    neighbours(rep, ip)


def identity(rep, ip, r, leaf, top, ghost):
    """The key under which a face is looked up."""
    a, b, c, d = labels(4)
    n = 0
    for e in r.events:
        if e.kind != "mutate" or e.extra.get("key", ("",))[0] != "item" or len(e.loops) < 2 or not isinstance(e.extra["key"][1], Term):
            continue
        L1, L = e.loops[-2:]
        k = e.extra["key"][1]

        def of(face, i=0):
            def extra(t):
                return list(face) if t.op == "elem" and t.args[1] == L else None
            f = Fold(ip, CellLeaf(ip, leaf.types, leaf.cur, leaf.verts, extra), e.heap)
            f.loops[L1] = i
            v = f(k)
            return tuple(v) if isinstance(v, list) else frozenset(v) if isinstance(v, set) else v

        key = f"extract_cell_geometry:{top}D:ghost={ghost}:identity"
        try:
            base = of((a, b, c)) if top == 3 else of((a, b))
            if top == 3:
                same_set, other = of((a, b, c, c)), (of((a, b, d)), of((a, c, d)))
            tests = [("the vertices are visited in another order", [of((c, a, b)), of((b, a, c))] if top == 3 else [of((b, a))], True),
                     ("another cell uses it", [of((a, b, c), 1)] if top == 3 else [of((a, b), 1)], True),
                     ("a vertex differs", [of((a, b, d)), of((d, b, c)), of((a, d, c)), of((a, b, c, d))] if top == 3
                      else [of((a, c)), of((c, b))], False)]
        except (Unknown, Fails):
            continue
        n += 1
        if top == 3:
            rep.check(same_set == base, key + ":repeated vertex", e.loc,
                      "a collapsed face is not recognised as the one with the same vertices")
            rep.check(other[0] != other[1], key + ":inner vertex", e.loc,
                      "faces that differ in one vertex are taken for the same")
        for what, others, same in tests:
            rep.check(all((o == base) is same for o in others), f"{key}:{what}", e.loc,
                      f"a face is {'not ' if same else ''}recognised as the same one when {what}")
        owners(rep, ip, r, e, L1, key)
    if not n:
        rep.skip(f"extract_cell_geometry:{top}D: identity of faces")


def short_of_meshes(t):
    if t.op == "call" and is_glob(t.args[0], "pyvista.PolyData"):
        return
    yield t

    def go(x):
        if isinstance(x, Term):
            yield from short_of_meshes(x)
        elif isinstance(x, tuple):
            for y in x:
                yield from go(y)

    for x in t.args:
        yield from go(x)


def id_lists(ip, r):
    """The lists whose content ends up in the array of cell numbers."""
    out, todo, seen = set(), [], set()
    for e in r.events:
        if e.kind == "mutate" and e.extra.get("key", ("",))[0] == "item" and isinstance(e.extra["key"][1], Term) \
                and e.extra["key"][1].op == "const" and e.extra["key"][1].args[1] == "vtkOriginalCellIds" \
                and isinstance(e.extra.get("value"), Term):
            todo.append(e.extra["value"])
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        for x in short_of_meshes(t):
            if x.op == "obj" and x.args[0] == "list":
                out.add(x)
            if x.op == "mu" and x in ip.mu_next:
                todo.extend(y for y in ip.mu_next[x] if isinstance(y, Term))
            if x.op in ("elem", "idx", "key"):
                L = x.args[-1]
                if L in ip.loops and isinstance(ip.loops[L][0], Term):
                    todo.append(ip.loops[L][0])
    return out


def owners(rep, ip, r, e, L1, key):
    """Both the first and the later cells of a face are recorded by their number."""
    lists = id_lists(ip, r)
    n, later = 0, 0
    for ev in r.events:
        if ev.kind != "mutate" or ev.loops != e.loops or ev.extra.get("key", ("",))[0] not in ("append", "extend"):
            continue
        t, v = ev.term, ev.extra.get("value")
        inner = t.op == "index" and root(t.args[0]) in lists
        if not (inner or root(t) in lists) or not isinstance(v, Term):
            continue
        if v.op == "obj":
            v = ev.heap.get(("obj", v), v)
        if v.op == "list":
            if not v.args:
                continue
            v = v.args[0]
        n += 1
        later += inner
        for x in leaves_of(v):
            if x.op == "idx" and x.args[0] == L1:
                rep.ok(key + ":owner")
            elif x.op == "idx" or x.op == "call" and is_glob(x.args[0], "builtins.len") or x.op == "const" \
                    or x.op == "index" and x.args[0].op == "obj" and x.args[0].args[0] == "dict":
                rep.bad(key + ":owner", ev.loc, "the cell recorded for a face is not the cell at hand")
            else:
                rep.skip(key + ":owner")
    if not n:
        rep.skip(key + ":owner")
    else:
        rep.check(later, key + ":later owners", e.loc, "only the first cell of a face is recorded")


def root(t):
    while t.op in ("mu", "dup") and len(t.args) and isinstance(t.args[-1], Term):
        t = t.args[-1]
    return t


SAMPLES = [[[0, 1], [0, -1]], [[0, -1], [0, -1]], [[0, 1], [0, 1]], [[2, 3], [4, 3]], [[0, 1], [1, 2]]]


def ids(rep, ip, r, leaf, top, ghost):
    """The array of cell numbers: unused places are -1, and no column with a cell number is dropped."""
    if r.final is None:
        return
    key = f"extract_cell_geometry:{top}D:ghost={ghost}:ids"
    for e in r.events:
        if e.kind != "mutate" or e.extra.get("key", ("",))[0] != "item" or e.loops:
            continue
        k, v = e.extra["key"][1], e.extra.get("value")
        if not (isinstance(k, Term) and k.op == "const" and k.args[1] == "vtkOriginalCellIds") or not isinstance(v, Term):
            continue
        v = Fold(ip, leaf).ip and v
        if v.op == "index" and v.args[1].op == "tuple":
            for s in SAMPLES:
                got = sample(ip, e, v, s)
                if got is None:
                    rep.skip(key + ":columns")
                    break
                cols = [list(c) for c in zip(*s) if any(x != -1 for x in c)]
                left = [list(c) for c in zip(*got)] if got and got[0] else []
                rep.check(all(c in left for c in cols), key + ":columns", e.loc,
                          f"cell numbers {s} of the remaining faces become {got}")
            continue
        base = v
        while base.op in ("store", "mu"):
            base = base.args[0] if base.op == "store" else ip.mu_next.get(base, (base,))[0]
            if base.op == "mu" and base not in ip.mu_next:
                break

        def extra(t):
            return 2 if t.op == "call" and is_glob(t.args[0], "builtins.len", "builtins.max") else None

        try:
            rows = Fold(ip, CellLeaf(ip, leaf.types, None, None, extra), {})(base)
        except (Unknown, Fails):
            rep.skip(key + ":fill")
            continue
        rows_filled(rep, ip, e, v, base, key)
        flat = [x for q in rows for x in (q if isinstance(q, list) else [q])]
        rep.check(all(x == -1 for x in flat), key + ":fill", e.loc, f"places without a cell hold {flat[0]} instead of -1")


def rows_filled(rep, ip, e, v, base, key):
    """What one iteration writes for a face with the given cells: the cells first, then -1."""
    if v.op != "mu" and e.heap is not None:
        v = e.heap.get(("arr", v), v)
    nx = ip.mu_next.get(v)
    if nx is None or not isinstance(nx[1], Term) or nx[1].op != "store":
        rep.skip(key + ":rows")
        return
    post = nx[1]
    loops = {x.args[-1] for x in subterms(post) if x.op in ("idx", "elem") and x.args[-1] in ip.loops}
    if len(loops) != 1:
        rep.skip(key + ":rows")
        return
    L = loops.pop()
    for row in ([5], [5, 7], [5, 7, 9]):
        def leaf(t):
            if t is base or t is v or t.op == "mu" and ip.mu_next.get(t, (None,))[0] is nx[0] or t is nx[0]:
                return [[-1] * 3 for _ in range(3)]
            if t.op == "elem" and t.args[1] == L:
                return list(row)
            return None
        try:
            fold = Fold(ip, leaf, {})
            fold.loops[L] = 1
            got = fold(post)
        except Unknown:
            rep.skip(key + ":rows")
            return
        except Fails as x:
            rep.bad(key + ":rows", e.loc, f"the cells {row} of a face: {x}")
            continue
        want = [[-1] * 3, (row + [-1] * 3)[:3], [-1] * 3]
        rep.check([sorted(q) for q in got] == [sorted(q) for q in want], key + ":rows", e.loc,
                  f"the cells {row} of a face are written as {got[1] if got[1] != want[1] else got}")


MEASURES = [[0.0, 1e-12, 3.0, 2.0], [2.0, 0.0, 0.0, 5.0], [-1.0, 0.0, 4.0, 1e-30]]


def collapsed(rep, ip, r, top, ghost):
    """Which faces are left when ghost cells are removed: those with a non-zero size, together with their own cells."""
    if r.final is None:
        return
    key = f"extract_cell_geometry:{top}D:ghost={ghost}:collapsed"
    def sized(t):
        return any(x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "compute_cell_sizes" for x in subterms(t))

    rebuilt = [e for e in r.events if e.kind == "call" and e.term.op == "call" and
               (sized(e.term) or any(sized(c) for c, _ in e.facts)) and (e.extra.get("args") or e.extra.get("kwargs")) and
               (is_glob(e.term.args[0], "pyvista.PolyData") or
                e.term.args[0].op == "attr" and e.term.args[0].args[1] in ("from_irregular_faces", "extract_cells"))]
    sizes = [e for e in r.events if e.kind == "call" and e.term.op == "call" and e.term.args[0].op == "attr"
             and e.term.args[0].args[1] == "compute_cell_sizes"]
    if not ghost:
        # nothing is removed
        rep.check(not rebuilt, key, rebuilt[0].loc if rebuilt else "extract_cell_geometry", "faces are removed although ghost cells are kept")
        return
    if not sizes:
        rep.bad(key, "extract_cell_geometry", "collapsed faces are kept although ghost cells are removed")
        return
    cells = [e for e in r.events if e.kind == "mutate" and e.extra.get("key", ("",))[0] == "item" and isinstance(e.extra["key"][1], Term)
             and e.extra["key"][1].op == "const" and e.extra["key"][1].args[1] == "vtkOriginalCellIds"
             and isinstance(e.extra.get("value"), Term) and any(x.op == "index" for x in subterms(e.extra["value"]))]
    if len(rebuilt) != 1 or len(cells) != 1:
        rep.skip(key)
        return
    e, v = rebuilt[0], cells[0].extra["value"]
    src = roots_of(ip, v)
    own = [[i, i + 10] for i in range(4)]
    for m in MEASURES:
        def leaf(t):
            if t.op == "index" and t.args[1].op == "const" and t.args[1].args[1] in ("Area", "Length", "Volume"):
                return list(m)
            if t is src or t.op == "mu" and roots_of(ip, t) is src:
                return [list(q) for q in own]
            if t.op == "attr" and t.args[1] in ("irregular_faces", "regular_faces"):
                return [Label(f"face{i}") for i in range(4)]
            if t.op == "attr" and t.args[1] in ("lines", "faces") :
                return [Label(f"face{i}.{j}") for i in range(4) for j in range(3)]
            if t.op == "attr" and t.args[1] in ("n_lines", "n_cells", "n_faces", "n_faces_strict"):
                return 4
            return None
        kw = e.extra.get("kwargs") or {}
        arg = kw.get("lines") or kw.get("faces") or (e.term.args[1][1] if len(e.term.args[1]) > 1 else None)
        if arg is None:
            rep.skip(key)
            return
        try:
            taken = [all_facts(ip, leaf, e), all_facts(ip, leaf, cells[0])]
            if not all(taken):
                rep.bad(key, e.loc, f"with sizes {m} the collapsed faces are kept")
                continue
            ids_ = Fold(ip, leaf, {})(v)
            left = Fold(ip, leaf, e.heap)(arg)
            flat = [x for q in left for x in (q if isinstance(q, list) else [q])]
            faces = []
            for x in flat:
                i = int(x.name[4:].split(".")[0])
                faces.append(i) if i not in faces else None
        except (Unknown, Fails, AttributeError):
            rep.skip(key)
            return
        want = [i for i, x in enumerate(m) if x != 0.0]
        if any(x < 0 for x in m):
            want = faces  # sizes are not negative; either way is right
        rep.check(faces == want, key, e.loc, f"of faces with sizes {m} those numbered {faces} are left, should be {want}")
        rep.check(ids_ == [own[i] for i in faces], key + ":cells", cells[0].loc,
                  f"faces {faces} are left but the cells of {[q[0] for q in ids_]}")


def all_facts(ip, leaf, e):
    fold = Fold(ip, leaf, {})
    for c, val in e.facts:
        if c.op == "opq":
            continue
        try:
            if fold.truth(c) is not val:
                return False
        except Unknown:
            pass
    return True


def roots_of(ip, t):
    """The array a chain of writes and selections starts from."""
    seen = set()
    while t not in seen:
        seen.add(t)
        if t.op in ("store", "index"):
            t = t.args[0]
        elif t.op == "mu" and t in ip.mu_next:
            t = ip.mu_next[t][0]
    return t


def sample(ip, e, v, s):
    """The column selection applied to sample numbers."""
    inner = v.args[0]
    roots = {roots_of(ip, inner)}

    def extra(t):
        if t is inner or t.op in ("mu", "store", "index") and t is not v and roots_of(ip, t) in roots:
            return [list(q) for q in s]
        return None

    try:
        return Fold(ip, extra, {})(v)
    except (Unknown, Fails):
        return None


OWNERS = [[[0, 1, -1], [2, -1, -1], [0, 2, 3], [1, 4, -1], [4, 1, -1]], [[0, -1], [0, 1], [2, 1], [3, -1]], [[0], [1], [2]],
          [[3, 1, 0, 2]]]


def wanted_pairs(s):
    return {frozenset((a, b)) for r in s for a in r for b in r if a != b and -1 not in (a, b)}


def iterations(ip, fold, loops):
    """Every assignment of iteration numbers to nested loops whose iterables fold to known sequences."""
    if not loops:
        yield
        return
    L = loops[0]
    items = fold.iter(ip.loops[L][0])
    for i in range(len(seq(items))):
        fold.loops[L] = i
        yield from iterations(ip, fold, loops[1:])
    fold.loops.pop(L, None)


def holds(ip, fold, facts):
    """Whether the branch conditions leading here hold; those that cannot be folded must not depend on the iteration."""
    for c, val in facts:
        if c.op == "opq":
            continue
        try:
            if fold.truth(c) is not val:
                return False
        except Unknown:
            if any(L in fold.loops for x in subterms(c) for L in x.args if isinstance(L, tuple)):
                raise
    return True


def id_leaf(s, n_cells=9):
    def leaf(t):
        if t.op == "index" and t.args[1].op == "const" and t.args[1].args[1] == "vtkOriginalCellIds":
            return [list(r) if len(r) > 1 else r[0] for r in s]
        if t.op == "attr" and t.args[1] == "n_cells":
            return len(s) if any(x.op == "call" and is_glob(x.args[0], "pvgridder.extract_cell_geometry") for x in subterms(t)) else n_cells
        return None
    return leaf


def neighbours(rep, ip):
    opaque = ("extract_cell_geometry", "get_cell_centers")
    for ghost in (True, False):
        r = ip.run("out = get_neighborhood(mesh, flag)", {"mesh": mesh_param(), "flag": const(ghost)}, opaque=opaque)
        rep.saw(r)
        key = f"get_neighborhood:ghost={ghost}"
        passes(rep, r, key, ghost)
        evs = [e for e in r.events if e.kind == "mutate" and e.term.op == "index" and e.loops
               and e.extra.get("key", ("",))[0] in ("append", "extend")]
        for s in OWNERS:
            got = set()
            try:
                if r.final is None or not evs:
                    raise Unknown()
                for e in evs:
                    fold = Fold(ip, id_leaf(s), e.heap)
                    for _ in iterations(ip, fold, e.loops):
                        if holds(ip, fold, e.facts):
                            v = fold(e.extra["value"])
                            got |= {(fold(e.term.args[1]), x) for x in (v if isinstance(v, (list, tuple)) else [v])}
            except Unknown:
                rep.skip(key)
                continue
            except Fails as x:
                rep.bad(key, "get_neighborhood", f"cells of the faces {s}: {x}")
                continue
            want = {(a, b) for p in wanted_pairs(s) for a in p for b in p if a != b}
            rep.check(got == want, key, evs[0].loc, diff("neighbours", s, got, want))
        r = ip.run("out = get_connectivity(mesh, None, flag)", {"mesh": mesh_param(), "flag": const(ghost)}, opaque=opaque)
        rep.saw(r)
        key = f"get_connectivity:ghost={ghost}"
        passes(rep, r, key, ghost)
        out = [e for e in r.events if e.kind == "call" and e.term.op == "call" and is_glob(e.term.args[0], "pyvista.PolyData")]
        for s in OWNERS:
            try:
                if r.final is None or len(out) != 1 or "lines" not in out[0].extra["kwargs"]:
                    raise Unknown()
                lines = Fold(ip, id_leaf(s), out[0].heap)(out[0].extra["kwargs"]["lines"])
                lines = [x for q in lines for x in (q if isinstance(q, (list, tuple)) else [q])]
                if len(lines) % 3 or any(x != 2 for x in lines[::3]):
                    raise Fails(f"lines {lines}")
                got = {frozenset(x) for x in zip(lines[1::3], lines[2::3])}
            except Unknown:
                rep.skip(key)
                continue
            except Fails as x:
                rep.bad(key, "get_connectivity", f"cells of the faces {s}: {x}")
                continue
            rep.check(got == wanted_pairs(s), key, out[0].loc, diff("connections", s, {tuple(sorted(x)) for x in got},
                                                                    {tuple(sorted(x)) for x in wanted_pairs(s)}))


def diff(what, s, got, want):
    a, b = sorted(want - got), sorted(got - want)
    return f"{what} for faces owned by {s}: missing {a}, added {b}"


def passes(rep, r, key, ghost):
    """The faces of the mesh that was given, with the ghost cells treated as asked."""
    for e in r.events:
        if e.kind == "call_int" and e.extra["func"].qual.endswith("extract_cell_geometry"):
            env = e.extra["env"]
            flag, mesh = env.get("remove_ghost_cells"), env.get("mesh")
            if isinstance(flag, Term) and flag.op == "const":
                rep.check(flag.args[1] is ghost, key + ":flag", e.loc, "remove_ghost_cells is not what was asked")
            if isinstance(mesh, Term):
                rep.check(any(x.op == "sym" for x in subterms(mesh)), key + ":mesh", e.loc, "the faces are not those of the mesh")
