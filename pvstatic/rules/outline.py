"""Boundary polygons of a mesh and their holes."""
from __future__ import annotations

from fractions import Fraction
from itertools import permutations

from .. import known
from ..extmodel import CELLTYPES as CT
from ..fold import Fails, Fold, Unknown
from ..known import Known, Mesh
from ..terms import is_glob

F = Fraction
POLYLINE, QUAD = 4, CT["QUAD"]


class Loop:
    """A shapely polygon: only the first two coordinates count."""

    def __init__(self, pts):
        self.pts = [(p[0], p[1]) for p in pts]

    @property
    def area(self):
        n = len(self.pts)
        return abs(sum(self.pts[i][0] * self.pts[(i + 1) % n][1] - self.pts[(i + 1) % n][0] * self.pts[i][1] for i in range(n))) / 2

    def box(self):
        return [(min(c), max(c)) for c in zip(*self.pts)]

    def contains(self, other):
        """For rectangles along the axes, none of which touch."""
        if not self.area:
            return False
        return all(a < c and d < b for (a, b), (c, d) in zip(self.box(), other.box()))


class Filled:
    def __init__(self, shell, holes):
        self.shell, self.holes = shell, holes


class Loops(Known):
    """Feature edges are the loops of the scene, in its order."""

    def __init__(self, ip, meshes, loops, inner):
        super().__init__(ip, meshes)
        self.loops, self.inner = loops, inner

    def do_extract_feature_edges(self, m, a, k):
        names = ("feature_angle", "boundary_edges", "non_manifold_edges", "feature_edges", "manifold_edges", "clear_data")
        on = {"boundary_edges": True, "non_manifold_edges": True, "feature_edges": True, "manifold_edges": True}
        on.update(zip(names, a))
        on.update(k)
        if any(not isinstance(on[n], bool) for n in names[1:5]):
            raise Unknown()
        return wires((self.loops if on["boundary_edges"] else []) + (self.inner if on["manifold_edges"] else []))

    def do_strip(self, m, a, k):
        n = k.get("max_length", a[1] if len(a) > 1 else 1000)
        if isinstance(n, int) and any(len(ids) > n + 1 for _, ids in m.cells):
            raise Unknown()
        return m

    def do_from_regular_faces(self, m, a, k):
        pts, faces = a[0] if a else k["points"], a[1] if len(a) > 1 else k["faces"]
        cells = [(CT["POLYGON"] if len(f) != 4 else QUAD, list(f)) for f in faces]
        self.check(cells, pts)
        return Mesh(cells, points=pts, name="face")

    do_from_irregular_faces = do_from_regular_faces

    def do_merge_points(self, m, a, k):
        pts, new = [], []
        for p in m.points:
            if p not in pts:
                pts.append(p)
            new.append(pts.index(p))
        return Mesh([(t, [new[i] for i in ids]) for t, ids in m.cells], points=pts, kind=m.kind, name=m.name)

    do_clean = do_merge_points

    @staticmethod
    def sum_of(t):
        if t.op == "bin" and t.args[0] == "+":
            return t.args[1:3]
        if t.op == "call" and is_glob(t.args[0], "operator.+"):
            return t.args[1]
        return None

    def _mesh(self, t, fold):
        s = self.sum_of(t)
        if s is not None:
            a, b = (self.mesh(x, fold) for x in s)
            if a is None or b is None:
                return None
            n = len(a.points)
            return Mesh(a.cells + [(c, [i + n for i in ids]) for c, ids in b.cells], points=a.points + b.points, name="joined")
        return super()._mesh(t, fold)

    def __call__(self, t):
        v = self.special(t)
        return v if v is not None else super().__call__(t)

    def special(self, t):
        fold = self.fold
        if self.sum_of(t) is not None:
            return self._mesh(t, fold)
        if t.op == "attr" and t.args[1] == "area" and t.args[0].op != "sym":
            b = self.loop(t.args[0])
            return b.area if b is not None else None
        if t.op != "call":
            return None
        f = t.args[0]
        if is_glob(f, "shapely.Polygon", "shapely.geometry.Polygon"):
            pts = fold.of(t.args[1][0])
            if len(t.args[1]) != 1 or t.args[2]:
                raise Unknown()
            return Loop(pts)
        if f.op in ("func", "glob") and str(f.args[0]).split(".")[-1] == "Polygon":
            a = [fold.of(x) for x in t.args[1]]
            k = {x: fold.of(y) for x, y in t.args[2]}
            shell, holes = a[0] if a else k["shell"], a[1] if len(a) > 1 else k.get("holes")
            return Filled(shell, holes or [])
        if f.op == "attr" and f.args[1] in ("contains", "covers", "within", "covered_by"):
            a, b = self.loop(f.args[0]), fold.of(t.args[1][0])
            if a is None or not isinstance(b, Loop):
                return None
            return a.contains(b) if f.args[1] in ("contains", "covers") else b.contains(a)
        return None

    def loop(self, t):
        try:
            b = self.fold.of(t)
        except (Unknown, Fails):
            return None
        return b if isinstance(b, Loop) else None


def wires(loops):
    """Closed lines as strip gives them."""
    pts, cells = [], []
    for l in loops:
        n = len(pts)
        cells.append((POLYLINE, list(range(n, n + len(l))) + [n]))
        pts += l
    return Mesh(cells, points=pts, name="edges")


LIFT = {"xy": lambda u, v: [u, v, F(2)], "xz": lambda u, v: [u, F(0), v], "yz": lambda u, v: [F(-1), u, v], "zx": lambda u, v: [v, F(0), u],
        "upright": lambda u, v: [u, u, v], "tilted": lambda u, v: [u, v, 2 * v]}
# rectangles: x, y, width, height
SCENES = {
    "one": [(0, 0, 9, 9)], "two apart": [(0, 0, 4, 9), (5, 0, 4, 9)], "hole": [(0, 0, 9, 9), (2, 3, 3, 4)],
    "two holes": [(0, 0, 20, 9), (2, 3, 3, 4), (8, 1, 6, 7)], "hole in the second": [(0, 0, 4, 9), (10, 0, 9, 9), (12, 3, 3, 4)],
    "island": [(0, 0, 30, 30), (3, 4, 20, 20), (8, 8, 4, 5)], "island with hole": [(0, 0, 40, 40), (3, 4, 30, 30), (8, 8, 15, 15), (10, 11, 4, 5)],
    "holes apart": [(0, 0, 9, 9), (20, 0, 12, 12), (2, 2, 4, 5), (22, 3, 6, 5)],
    "islands": [(0, 0, 40, 20), (2, 2, 30, 15), (4, 4, 5, 5), (12, 4, 6, 6)], "wide and thin": [(0, 0, 50, 2), (1, 1, 3, F(1, 2))],
}


def corners(r, lift, turn):
    x, y, w, h = (F(i) for i in r)
    q = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    q = q[::-1] if turn % 2 else q
    q = q[turn % 4:] + q[:turn % 4]
    return [lift(u, v) for u, v in q]


def inside(a, b):
    """Whether rectangle *a* lies in *b*."""
    return a != b and b[0] < a[0] and b[1] < a[1] and a[0] + a[2] < b[0] + b[2] and a[1] + a[3] < b[1] + b[3]


def families(rs):
    """{outer: holes}, every other level of nesting a hole."""
    around = {r: [b for b in rs if inside(r, b)] for r in rs}
    out = {r: [] for r in rs if len(around[r]) % 2 == 0}
    for r in rs:
        if r not in out:
            out[min(around[r], key=lambda b: b[2] * b[3])].append(r)
    return out


def run(rep, ip, tier):
    """extract_boundary_polygons on meshes whose boundary is a set of nested and separate rectangles, in coordinate planes and tilted ones, with the loops in
    every order (up to 24) and both directions: the loops given, which of them are holes and of which polygon."""
    rep.rule("one closed line per boundary loop; with holes, one polygon per loop inside an even number of others, with the loops directly inside it as its holes")
    rep.rule("filled polygons are made of the same shell and holes")
    for name, rs in SCENES.items():
        for pi, order in enumerate(permutations(rs)):
            if len(rs) > 3 and tier == "quick" and pi % 3:
                continue
            for plane in LIFT:
                for opts in ("with_holes=True", "", "fill=True, with_holes=True", "fill=True"):
                    if pi and "with_holes" not in opts and tier == "quick":
                        continue
                    for kind in ("UnstructuredGrid", "PolyData", "lines"):
                        if kind != "UnstructuredGrid" and (plane != "xy" or pi) and tier == "quick":
                            continue
                        one(rep, ip, name, pi, list(order), plane, opts, kind)
    nothing(rep, ip)


def key_of(pts):
    return frozenset(tuple(F(x) for x in p) for p in pts)


def one(rep, ip, name, pi, rs, plane, opts, kind):
    key = f"extract_boundary_polygons:{name}:{pi}:{plane}:{opts}:{kind}"
    lift = LIFT[plane]
    loops = [corners(r, lift, i + pi) for i, r in enumerate(rs)]
    names = {key_of(l): r for l, r in zip(loops, rs)}
    inner = [[lift(F(1), F(1)), lift(F(2), F(1)), lift(F(2), F(2))]]
    if kind == "lines":
        m = wires(loops)
        m.kind = "PolyData"
    else:
        pts = [p for l in loops for p in l] + [lift(F(1, 3), F(1, 3))]
        m = Mesh([(QUAD, [4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3]) for i in range(len(loops))], points=pts, kind=kind, name="m")
    leaf = Loops(ip, {"m": m}, loops, inner)
    src = f"out = extract_boundary_polygons(m{', ' + opts if opts else ''})"
    r = known.run(ip, src, {"m": {"types": [m.kind]}}, leaf, opaque=("Polygon",))
    rep.saw(r)
    fn = "extract_boundary_polygons"
    if r.final is None:
        rep.bad(key, fn, f"{key}: refused")
        return
    if not known.accepted(r):
        rep.skip(key)
        return
    ip.st = r.final
    leaf.fold = fold = Fold(ip, leaf)
    try:
        out = fold.deref(r.env["out"])
        if out is None:
            raise Fails("gives nothing")
        why = compare(list(out), rs, names, opts)
    except Unknown:
        rep.skip(key)
        return
    except Fails as e:
        why = f"fails: {e}"
    rep.check(why is None, key, fn, f"{key}: {why}")


def compare(out, rs, names, opts):
    def which(m):
        if not isinstance(m, Mesh):
            raise Unknown()
        return names.get(key_of(m.points))
    if "with_holes" not in opts:
        got = [which(m) for m in out]
        if sorted(map(str, got)) != sorted(map(str, rs)):
            return f"gives the loops {got} instead of {rs}"
        if "fill" in opts:
            for m, r in zip(out, got):
                faces = [ids for t, ids in m.cells if t in known.FACES]
                if len(faces) != 1 or names.get(key_of([m.points[i] for i in faces[0]])) != r:
                    return f"the loop {r} is not filled by one face"
        return None
    want = families(rs)
    got = {}
    for x in out:
        if "fill" in opts:
            if not isinstance(x, Filled):
                raise Unknown()
            shell, holes = x.shell, x.holes
        else:
            if not isinstance(x, (list, tuple)) or not x:
                raise Unknown()
            shell, holes = x[0], x[1:]
        got[which(shell)] = sorted(str(which(h)) for h in holes)
    want = {k: sorted(map(str, v)) for k, v in want.items()}
    return None if got == want and len(out) == len(got) else f"gives {got} instead of {want}"


def nothing(rep, ip):
    for opts in ("", "with_holes=True", "fill=True"):
        key = f"extract_boundary_polygons:closed surface:{opts}"
        leaf = Loops(ip, {"m": Mesh([(QUAD, [0, 1, 2, 3])], points=corners((0, 0, 1, 1), LIFT["xy"], 0), kind="UnstructuredGrid", name="m")}, [], [])
        r = known.run(ip, f"out = extract_boundary_polygons(m{', ' + opts if opts else ''})", {"m": {"types": ["UnstructuredGrid"]}}, leaf, opaque=("Polygon",))
        rep.saw(r)
        if r.final is not None and not known.accepted(r):
            rep.skip(key)
            continue
        try:
            ip.st = r.final
            rep.check(r.final is not None and Fold(ip, leaf).of(r.env["out"]) is None, key, "extract_boundary_polygons", f"{key}: does not give None")
        except Unknown:
            rep.skip(key)
