"""Cells made by extruding the cells of an unstructured surface."""
from __future__ import annotations

import itertools
from fractions import Fraction

from ..extmodel import CELLTYPES
from ..fold import Fails, Fold, Unknown, depth
from ..terms import Term, const, is_glob, mk

TRI, POLY, PIX, QUAD = (CELLTYPES[n] for n in ("TRIANGLE", "POLYGON", "PIXEL", "QUAD"))
WEDGE, HEX, VOX, PHED = (CELLTYPES[n] for n in ("WEDGE", "HEXAHEDRON", "VOXEL", "POLYHEDRON"))
# a convex ring, counterclockwise seen from +z; coordinates are representatives of their orientation class
RING = {3: [(0, 0), (4, 0), (0, 4)], 4: [(0, 0), (4, 0), (5, 3), (1, 4)], 5: [(0, 0), (4, 0), (6, 3), (3, 6), (0, 3)],
        6: [(0, 0), (3, 0), (5, 2), (5, 5), (2, 6), (0, 3)]}


class Base:
    """A surface: cells (type, number of vertices), with vertex numbers in no particular order."""

    def __init__(self, cells, clockwise=False, shift=(0, 0, 3), still=()):
        self.types = [c for c, _ in cells]
        self.conn, self.offset, self.pts = [], [0], {}
        total = sum(n for _, n in cells)
        self.n = total + 2
        numbers = [(7 * i + 3) % self.n for i in range(self.n)] if self.n % 7 else [(5 * i + 3) % self.n for i in range(self.n)]
        pos = 0
        self.rings = []
        for c, (t, n) in enumerate(cells):
            ring = [(x + 10 * c, y) for x, y in RING[n]]
            if clockwise:
                ring = ring[::-1]
            ids = numbers[pos:pos + n]
            pos += n
            for i, (x, y) in zip(ids, ring):
                self.pts[i] = (x, y, 0)
            self.rings.append(ids)
            self.conn += [ids[0], ids[1], ids[3], ids[2]] if t == PIX else ids
            self.offset.append(len(self.conn))
        self.a = [list(self.pts.get(i, (100 + i, 50, 0))) for i in range(self.n)]
        moved = [i not in still for i in range(self.n)]
        self.b = [[x + s for x, s in zip(p, shift)] if m else list(p) for p, m in zip(self.a, moved)]
        self.moved = moved

    def collapsed(self, c):
        return not any(self.moved[i] for i in self.rings[c])

    def level(self, i, n):
        """Coordinates of base points at level i of n."""
        f = Fraction(i, n)
        return [tuple(x + f * (y - x) for x, y in zip(p, q)) for p, q in zip(self.a, self.b)]


class Leaf:
    def __init__(self, base, types_b=None):
        self.base, self.types_b = base, types_b if types_b is not None else base.types

    def which(self, t):
        """The surface a term stands for: the argument, a copy or a cast of it."""
        while t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("copy", "cast_to_unstructured_grid"):
            t = t.args[0].args[0]
        return t.args[0] if t.op == "sym" and t.args[0] in ("a", "b") else None

    def __call__(self, t):
        if t.op == "isinst":
            w = self.which(t.args[0])
            if w:
                return bool({"UnstructuredGrid", "DataSet", "PointSet"} & set(t.args[1]))
        if t.op == "attr":
            w = self.which(t.args[0])
            b = self.base
            if w:
                n = t.args[1]
                if n == "points":
                    return [list(p) for p in (b.a if w == "a" else b.b)]
                if n == "celltypes":
                    return list(b.types if w == "a" else self.types_b)
                if n in ("n_points", "number_of_points"):
                    return b.n
                if n in ("n_cells", "number_of_cells"):
                    return len(b.types)
                if n == "offset":
                    return list(b.offset)
                if n == "cell_connectivity":
                    return list(b.conn)
                if n == "cells":
                    return [x for i, j in zip(b.offset, b.offset[1:]) for x in [j - i] + b.conn[i:j]]
        return None


def oracle(ip, leaf):
    def assume(c, *a):
        try:
            return Fold(ip, leaf).truth(c)
        except (Unknown, Fails):
            return None
    return assume


PARAMS = {"a": {"types": ["UnstructuredGrid"]}, "b": {"types": ["UnstructuredGrid"]}}


def run(rep, ip, tier):
    """The arrays given to the UnstructuredGrid constructor are folded for every supported cell type (polygons of 3 to 6 vertices,
    mixes), both orientations and directions of extrusion, one to three layers; every other VTK type must be refused."""
    rep.rule("one cell per base cell and layer, in base order, made of the base vertices at the two levels of the layer")
    rep.rule("triangle: wedge; quadrilateral, pixel: hexahedron; polygon: polyhedron with two ends and one quadrilateral per edge, closed and outward")
    rep.rule("marked inactive exactly when the two ends coincide")
    rep.rule("other cell types are refused")
    singles = [[(TRI, 3)], [(QUAD, 4)], [(PIX, 4)]] + [[(POLY, n)] for n in (3, 4, 5, 6)]
    mixes = [[(TRI, 3), (QUAD, 4)], [(QUAD, 4), (TRI, 3)], [(PIX, 4), (TRI, 3), (POLY, 5)], [(POLY, 5), (PIX, 4), (QUAD, 4)],
             [(POLY, 4), (POLY, 6), (TRI, 3)], [(PIX, 4), (PIX, 4)]]
    for cells in singles + mixes:
        for n in (1, 2, 3):
            for shift in ((0, 0, 3), (0, 0, -3), (1, 2, 6)):
                for clockwise in (False, True):
                    one(rep, ip, cells, n, shift, clockwise, True)
            one(rep, ip, cells, n, (0, 0, 3), False, False)
    for cells in mixes + [[(TRI, 3)], [(POLY, 5)]]:
        for k in range(len(cells)):
            for part in (False, True):
                one(rep, ip, cells, 2, (0, 0, 3), False, True, still=k, part=part)
    refusals(rep, ip)


def one(rep, ip, cells, n, shift, clockwise, invert, still=None, part=False):
    names = {TRI: "triangle", QUAD: "quad", PIX: "pixel", POLY: "polygon"}
    base = Base(cells, clockwise, shift)
    if still is not None:
        ids = base.rings[still]
        base = Base(cells, clockwise, shift, still=ids[:1] if part else ids)
    key = (f"Volume:{'+'.join(f'{names[t]}{k}' for t, k in cells)}:layers={n}:shift={shift}:{'cw' if clockwise else 'ccw'}:invert={invert}"
           + ("" if still is None else f":cell {still} {'partly ' if part else ''}flat"))
    leaf = Leaf(base)
    r = ip.run(f"m = Volume(a, b, {n}, invert_polyhedron_faces={invert})", PARAMS, assume=oracle(ip, leaf))
    rep.saw(r)
    where = "generate_volume_from_two_surfaces"
    if r.final is None:
        rep.bad(key, where, f"{key}: refused")
        return
    m = r.env["m"]
    ct = None
    for e in r.events:
        if e.kind == "call" and is_glob(e.term.args[0], "pyvista.UnstructuredGrid") and len(e.term.args[1]) == 3:
            ct = e
    if ct is None:
        rep.skip(key)
        return
    fold = Fold(ip, leaf, ct.heap)
    try:
        got, types, pts = (fold(x) for x in ct.term.args[1])
        if depth(got) != 1 or depth(types) != 1 or depth(pts) != 2:
            raise Unknown()
    except Unknown:
        rep.skip(key)
        return
    except Fails as x:
        rep.bad(key, ct.loc, f"{key}: {x}")
        return
    why = judge(base, n, got, types, [tuple(p) for p in pts], invert, shift)
    rep.check(why is None, key, ct.loc, f"{key}: {why}")
    marks(rep, ip, r, leaf, base, n, key)


def judge(base, n, got, types, pts, invert, shift):
    want = [(i, c) for i in range(n) for c in range(len(base.types))]
    if len(types) != len(want):
        return f"{len(types)} cells, should be {len(want)}"
    pos = 0
    for (i, c), t in zip(want, types):
        if pos >= len(got) or not isinstance(got[pos], int):
            return "cell list too short"
        size = got[pos]
        body = got[pos + 1:pos + 1 + size]
        pos += 1 + size
        if len(body) != size:
            return "cell list too short"
        lo, hi = base.level(i, n), base.level(i + 1, n)
        ring = base.rings[c]
        low, up = [lo[v] for v in ring], [hi[v] for v in ring]
        bt = base.types[c]
        what = f"layer {i}, base cell {c}"
        try:
            if bt == POLY:
                if t != PHED:
                    return f"{what}: type {t} for a polygon"
                why = polyhedron(body, pts, low, up, invert, base.collapsed(c))
                if why:
                    return f"{what}: {why}"
                continue
            xs = [pts[v] for v in body]
        except (IndexError, TypeError):
            return f"{what}: vertex number out of range"
        if bt == TRI:
            ok = t == WEDGE and xs == low + up
        else:
            ok = t == HEX and xs == low + up or t == VOX and [xs[j] for j in (0, 1, 3, 2, 4, 5, 7, 6)] == low + up
        if not ok:
            return f"{what}: cell of type {t} does not join the base vertices of the two levels in order"
    if pos != len(got):
        return "cell list too long"
    return None


def polyhedron(body, pts, low, up, invert, flat):
    nf, rest = body[0], body[1:]
    faces = []
    while rest:
        k, rest = rest[0], rest[1:]
        faces.append([pts[v] for v in rest[:k]])
        if len(rest) < k:
            return "face list too short"
        rest = rest[k:]
    if nf != len(faces):
        return f"says {nf} faces, lists {len(faces)}"
    n = len(low)
    sides = [frozenset((low[j], low[(j + 1) % n], up[j], up[(j + 1) % n])) for j in range(n)]
    expect = sorted(map(repr, map(sorted, [frozenset(low), frozenset(up)] + sides)))
    if sorted(repr(sorted(frozenset(f))) for f in faces) != expect:
        return "faces are not the two ends and one side per edge"
    if flat or len(set(low + up)) < 2 * n:
        return None
    for f in faces:
        ring = low if set(f) == set(low) else up if set(f) == set(up) else None
        edges = {frozenset((f[j], f[(j + 1) % len(f)])) for j in range(len(f))}
        if ring is not None:
            ok = edges == {frozenset((ring[j], ring[(j + 1) % n])) for j in range(n)}
        else:
            ok = len(f) == 4 and all((x in low) != (y in low) or (low.index(x) - low.index(y)) % n in (1, n - 1) if x in low and y in low
                                     else True for x, y in zip(f, f[1:] + f[:1])) and not crossing(f, low, up)
        if not ok:
            return "face vertices are not in ring order"
    if not invert:
        return None
    used = {}
    for f in faces:
        for x, y in zip(f, f[1:] + f[:1]):
            used[x, y] = used.get((x, y), 0) + 1
    if any(v != 1 or (y, x) not in used for (x, y), v in used.items()):
        return "faces are not oriented consistently"
    vol = 0
    for f in faces:
        for j in range(1, len(f) - 1):
            (a, b, c), (d, e, g), (h, i, k) = f[0], f[j], f[j + 1]
            vol += a * (e * k - g * i) - b * (d * k - g * h) + c * (d * i - e * h)
    return None if vol > 0 else "faces point inwards"


def crossing(f, low, up):
    """A side listed in an order that crosses itself (a bow tie)."""
    kinds = [x in low for x in f]
    return kinds in ([True, False, True, False], [False, True, False, True])


def marks(rep, ip, r, leaf, base, n, key):
    """vtkGhostType at the end, with and without marks carried over from the base."""
    cd = mk("attr", r.env["m"], "cell_data")
    t = r.final.heap.get(("item", cd, const("vtkGhostType")))
    total = n * len(base.types)
    flat = [base.collapsed(c) for _ in range(n) for c in range(len(base.types))]
    if t is None:
        rep.skip(key + ":marks")
        return
    for old in (None, [32 * ((i + len(base.types)) % 3 == 0) for i in range(total)]):
        def all_leaves(x):
            if x.op == "cmp" and x.args[0] in ("in", "not in") and x.args[1] is const("vtkGhostType"):
                return (old is not None) is (x.args[0] == "in")
            if x.op == "index" and x.args[1] is const("vtkGhostType") and x.args[0] is cd or x.op == "index" and x.args[1].op == "key" \
                    and x.args[0].op == "attr" and x.args[0].args[1] == "cell_data":
                return list(old) if old is not None else None
            if x.op == "attr" and x.args[0] is r.env["m"] and x.args[1] in ("n_cells", "number_of_cells"):
                return total
            return leaf(x)

        name = f"{key}:marks:{'kept' if old else 'new'}"
        want = [32 if f else (old[i] if old else 0) for i, f in enumerate(flat)]
        try:
            got = Fold(ip, all_leaves, r.final.heap)(t)
        except Unknown:
            rep.skip(name)
            continue
        except Fails as x:
            rep.bad(name, "generate_volume_from_two_surfaces", f"{name}: {x}")
            continue
        rep.check(got == want, name, "generate_volume_from_two_surfaces", f"{name}: marks {got}, should be {want}")


def refusals(rep, ip):
    for name, t in sorted(CELLTYPES.items()):
        if t in (TRI, QUAD, PIX, POLY):
            continue
        for types, k in (([t], 0), ([TRI, t], 1), ([t, QUAD], 0)):
            base = Base([(TRI, 3)] * len(types))
            base.types = list(types)
            leaf = Leaf(base)
            r = ip.run("m = Volume(a, b, 2)", PARAMS, assume=oracle(ip, leaf))
            rep.saw(r)
            key = f"Volume:refused:{name}:{k}:{len(types)}"
            if r.final is None:
                rep.ok(key)
                continue
            # accepted on some path: which condition let it through?
            if any(v is None for v in [known(ip, leaf, g, b) for g, b in r.final.facts]):
                rep.skip(key)
            else:
                rep.bad(key, "generate_volume_from_two_surfaces", f"cells of type {name} are accepted")
    for ta, tb in itertools.permutations((TRI, QUAD, PIX, POLY), 2):
        base = Base([(TRI, 3)])
        base.types = [ta]
        leaf = Leaf(base, [tb])
        r = ip.run("m = Volume(a, b, 2)", PARAMS, assume=oracle(ip, leaf))
        rep.saw(r)
        key = f"Volume:refused:{ta}/{tb}"
        if r.final is None:
            rep.ok(key)
        elif any(v is None for v in [known(ip, leaf, g, b) for g, b in r.final.facts]):
            rep.skip(key)
        else:
            rep.bad(key, "generate_volume_from_two_surfaces", f"surfaces with different cell types ({ta}, {tb}) are accepted")


def known(ip, leaf, g, b):
    if not isinstance(g, Term) or g.op == "opq":
        return True
    try:
        return Fold(ip, leaf).truth(g) is b
    except (Unknown, Fails):
        return None if relevant(g) else True


def relevant(g):
    from ..terms import subterms
    return any(x.op == "attr" and x.args[1] in ("celltypes", "cells_dict", "cells", "cell") for x in subterms(g))
