"""Lines: splitting, merging, resampling, reconstructing."""
from __future__ import annotations

import math
from fractions import Fraction

from .. import known
from ..fold import Fails, Fold, Label, Unknown
from ..known import Known, Mesh

V, L, P, T = 1, 3, 4, 5


def labels(name, n, comps=""):
    return [[Label(f"{name}{i}.{c}") for c in comps] if comps else Label(f"{name}{i}") for i in range(n)]


def lines(cells, name, point=("a", "w"), cell=("c", "v", "s"), n=None):
    """A mesh of lines with scalar (a, b), vector (w) point data, scalar (c, d), vector (v) and text (s) cell data."""
    m = Mesh(cells, n=n, name=name)
    k, q = len(m.points), len(cells)
    for d in point:
        m.point_data[d] = labels(name + d, k, "xyz" if d == "w" else "")
    for d in cell:
        m.cell_data[d] = [f"{name}{i}" for i in range(q)] if d == "s" else labels(name + d, q, "xy" if d == "v" else "")
    return m


SCENES = {
    "one polyline": [(P, [2, 0, 1])],
    "one segment": [(L, [1, 0])],
    "mixed": [(L, [5, 1]), (P, [4, 2, 6, 0]), (L, [3, 4]), (P, [0, 5, 2])],
    "chained": [(P, [0, 1, 2]), (P, [2, 3, 4]), (L, [4, 0])],
    "closed": [(P, [3, 1, 2, 3])],
    "with points and faces": [(V, [6]), (P, [4, 2, 6]), (L, [1, 3]), (T, [0, 1, 2])],
}


def run(rep, ip, tier):
    """Points, data and connectivity of the lines are followed as labels; loops over lines are taken line by line."""
    rep.rule("split_lines: one mesh per line, in order, with its own points in visiting order, their data and the names stored with the mesh")
    rep.rule("merge_lines: the lines of all meshes in order, coincident points merged, with the data all meshes have")
    rep.rule("RegularLine: equal steps along the polyline, ends kept; CurvedLine: equal steps, evenly turning directions")
    split(rep, ip)
    merging(rep, ip)
    regular(rep, ip)
    curved(rep, ip)
    reconstructed(rep, ip)
    decimated(rep, ip)


def wanted(m, as_lines, keys=None):
    """The pieces a mesh of lines is made of: [(point rows, point data, cell data of the line)]."""
    out = []
    for c, (t, ids) in enumerate(m.cells):
        if t in known.LINES:
            out.append(([m.points[i] for i in ids], {k: [v[i] for i in ids] for k, v in m.point_data.items()},
                        {k: v[c] for k, v in m.cell_data.items()}))
    return out


def flat1(v):
    """pyvista drops a last axis of length one."""
    return [x[0] if isinstance(x, list) and len(x) == 1 else x for x in v]


def compare(m, pieces, as_lines):
    """None if the mesh consists of the pieces, in order; else what is wrong."""
    want = []
    for pts, pd, cd in pieces:
        n = len(pts)
        for seg in ([(i, i + 1) for i in range(n - 1)] if as_lines else [tuple(range(n))]):
            want.append(([pts[i] for i in seg], {k: [v[i] for i in seg] for k, v in pd.items()}, cd))
    if len(m.cells) != len(want):
        return f"{len(m.cells)} cells instead of {len(want)}"
    used = {i for _, ids in m.cells for i in ids}
    if used != set(range(len(m.points))):
        return "points that are on no line"
    for d, which in (("point_data", 1), ("cell_data", 2)):
        have = set(getattr(m, d))
        need = set(want[0][which])
        if have != need:
            return f"{d} {sorted(have)} instead of {sorted(need)}"
    for k, v in list(m.point_data.items()) + list(m.cell_data.items()):
        n = len(m.points) if k in m.point_data else len(m.cells)
        if not isinstance(v, (list, tuple)) or len(v) != n:
            return f"data array '{k}' has the wrong length"
    for c, ((t, ids), (pts, pd, cd)) in enumerate(zip(m.cells, want)):
        if [m.points[i] for i in ids] != pts:
            return f"line {c} visits {[m.points[i] for i in ids]} instead of {pts}"
        for k, v in pd.items():
            got = flat1(m.point_data[k])
            if [got[i] for i in ids] != v:
                return f"point data '{k}' of line {c} is {[got[i] for i in ids]} instead of {v}"
        for k, v in cd.items():
            if flat1(m.cell_data[k])[c] != v:
                return f"cell data '{k}' of line {c} is {flat1(m.cell_data[k])[c]} instead of {v}"
    return None


def split(rep, ip):
    for name, cells in SCENES.items():
        for point, cell in ((("a", "w"), ("c", "v", "s")), ((), ()), (("w",), ("s",))):
            m = lines(cells, "p", point, cell)
            m.user.update({"CellGroup": {"A": 1, "B": 0}} if cell else {})
            for as_lines in (True, False, None):
                leaf = Known(ip, {"m": m})
                key = f"split_lines:{name}:{'+'.join(point + cell) or 'no data'}:as_lines={as_lines}"
                arg = "" if as_lines is None else f", as_lines={as_lines}"
                r = known.run(ip, f"out = split_lines(m{arg})", {"m": {"types": ["PolyData"]}}, leaf)
                rep.saw(r)
                if r.final is None:
                    rep.bad(key, "split_lines", f"{key}: refused")
                    continue
                ip.st = r.final
                fold = Fold(ip, leaf)
                try:
                    got = [leaf.full(x, fold) for x in items(ip, r.env["out"])]
                    if None in got:
                        raise Unknown()
                    pieces = wanted(m, as_lines)
                    why = None if len(got) == len(pieces) else f"{len(got)} lines instead of {len(pieces)}"
                    for g, p in zip(got, pieces):
                        why = why or compare(g, [p], as_lines is not False)
                        why = why or (None if g.user == m.user else f"the names stored with the mesh are {g.user} instead of {m.user}")
                except Unknown:
                    rep.skip(key)
                    continue
                except Fails as e:
                    why = f"fails: {e}"
                rep.check(why is None, key, "split_lines", f"{key}: {why}")


def items(ip, t):
    v = ip.literal(t)
    if v is None and t.op == "call" and len(t.args[1]) == 1:
        return items(ip, t.args[1][0])
    if v is None:
        raise Unknown()
    return v


MERGES = {
    "two": [("mixed", ("a", "w"), ("c", "v", "s")), ("one polyline", ("w", "a"), ("s", "c", "v"))],
    "first has more": [("chained", ("a", "b"), ("c", "d", "s")), ("one segment", ("a",), ("c",))],
    "last has more": [("one segment", ("a",), ("s",)), ("mixed", ("a", "w"), ("c", "s", "v"))],
    "nothing in common": [("one segment", ("a",), ("c",)), ("one polyline", ("b",), ("d",))],
    "three": [("one polyline", ("a", "w"), ("c", "v")), ("with points and faces", ("a", "w"), ("v", "c")), ("chained", ("w", "a"), ("c", "v", "s"))],
    "middle has less": [("one polyline", ("a", "w"), ("c", "v")), ("one segment", ("w",), ("v",)), ("one segment", ("w", "a"), ("c", "v"))],
    "single": [("mixed", ("a", "w"), ("c", "v", "s"))],
}


def merging(rep, ip):
    for name, parts in MERGES.items():
        ms = [lines(SCENES[s], "pqr"[i], p, c) for i, (s, p, c) in enumerate(parts)]
        pk = set.intersection(*[set(m.point_data) for m in ms])
        ck = set.intersection(*[set(m.cell_data) for m in ms])
        pieces = [(pts, {k: v for k, v in pd.items() if k in pk}, {k: v for k, v in cd.items() if k in ck})
                  for m in ms for pts, pd, cd in wanted(m, True)]
        for as_lines in (True, False, None):
            for form in ("[{}]", "({},)"):
                names = [f"m{i}" for i in range(len(ms))]
                leaf = Known(ip, dict(zip(names, ms)))
                key = f"merge_lines:{name}:as_lines={as_lines}:{'list' if form[0] == '[' else 'tuple'}"
                arg = "" if as_lines is None else f", as_lines={as_lines}"
                r = known.run(ip, f"out = merge_lines({form.format(', '.join(names))}{arg})", {n: {"types": ["PolyData"]} for n in names}, leaf)
                rep.saw(r)
                if r.final is None:
                    rep.bad(key, "merge_lines", f"{key}: refused")
                    continue
                ip.st = r.final
                fold = Fold(ip, leaf)
                try:
                    m = leaf.full(r.env["out"], fold)
                    if m is None:
                        raise Unknown()
                    why = compare(unique(m), pieces, as_lines is not False)
                    why = why or (None if m.merged else "coincident points are not merged")
                except Unknown:
                    rep.skip(key)
                    continue
                except Fails as e:
                    why = f"fails: {e}"
                rep.check(why is None, key, "merge_lines", f"{key}: {why}")


def unique(m):
    """Merge points with the same label (what merge_points does); data of the first one."""
    first, new = {}, []
    for i, p in enumerate(m.points):
        first.setdefault(tuple(p), i)
        new.append(first[tuple(p)])
    order = sorted(set(new))
    out = Known.dup(m)
    out.points = [m.points[i] for i in order]
    out.cells = [(t, [order.index(new[i]) for i in ids]) for t, ids in m.cells]
    for k, v in m.point_data.items():
        if len(v) != len(m.points):
            raise Fails(f"data array '{k}' has the wrong length")
        out.point_data[k] = [v[i] for i in order]
    return out


F = Fraction
POLYLINES = {
    "straight": [(0, 0, 0), (10, 0, 0)],
    "bent": [(0, 0, 0), (3, 4, 0), (3, 4, 10), (3, 16, 5)],
    "backwards": [(9, 1, 2), (6, 5, 2), (6, 5, 1)],
    "steep": [(1, 0, 0), (4, 4, 12), (16, 20, 27), (16, 5, 27)],
    "flat": [(0, 0), (3, 4), (3, 10)],
}


def regular(rep, ip):
    for name, pts in POLYLINES.items():
        total = [F(0)]
        for p, q in zip(pts, pts[1:]):
            total.append(total[-1] + F(math.isqrt(sum((x - y) ** 2 for x, y in zip(p, q)))))
        for n in (1, 2, 3, 4, 7, None):
            key = f"RegularLine:{name}:{n}"
            leaf = Known(ip, {}, {"pts": [list(map(F, p)) for p in pts]})
            r = known.run(ip, "out = RegularLine(pts" + (f", {n})" if n else ")"), {"pts": {"types": ["ndarray"]}}, leaf)
            rep.saw(r)
            if r.final is None:
                rep.bad(key, "RegularLine", f"{key}: refused")
                continue
            ip.st = r.final
            try:
                m = leaf.full(r.env["out"], Fold(ip, leaf))
                if m is None:
                    raise Unknown()
                why = evenly(m, pts, total, n)
            except Unknown:
                rep.skip(key)
                continue
            except Fails as e:
                why = f"fails: {e}"
            rep.check(why is None, key, "RegularLine", f"{key}: {why}")


def at(pts, total, s):
    i = max(j for j in range(len(pts) - 1) if total[j] <= s)
    f = F(s - total[i], total[i + 1] - total[i])
    return [x + f * (y - x) for x, y in zip(pts[i], pts[i + 1])]


def near(p, q):
    return len(p) == len(q) and all(abs(float(x) - float(y)) < 1e-9 for x, y in zip(p, q))


def evenly(m, pts, total, n):
    if len(m.cells) != 1 or m.cells[0][1] != list(range(len(m.points))):
        return "is not one line through its points in order"
    k = len(m.points) - 1
    if n is not None and k != n:
        return f"{k} subdivisions instead of {n}"
    if k < 1:
        return "has no subdivision"
    for i, p in enumerate(m.points):
        if not all(isinstance(x, (int, float, F)) for x in p):
            raise Unknown()
        q = at(pts, total, total[-1] * i / k)
        if not near(p, q):
            return f"point {i} is {[float(x) for x in p]} instead of {[float(x) for x in q]}"
    return None


def curved(rep, ip):
    def turn(u, v, f):
        """Direction at fraction f of the turn from u to v."""
        a = math.acos(max(-1.0, min(1.0, sum(x * y for x, y in zip(u, v)))))
        if a == 0.0:
            return u
        return [(math.sin((1 - f) * a) * x + math.sin(f * a) * y) / math.sin(a) for x, y in zip(u, v)]

    cases = {
        "straight": ((1, 2, 3), 10, (0, 3, 4), None),
        "quarter": ((0, 0, 0), 6, (1, 0, 0), (0, 1, 0)),
        "down": ((5, -1, 2), 12, (0, 0, -2), (3, 0, -4)),
        "back": ((2, 0, 1), 10, (3, 4, 0), (-4, 3, 0)),
        "obtuse": ((0, 2, 1), 6, (4, 3, 0), (-3, 0, 4)),
        "almost back": ((0, 2, 1), 6, (24, 7, 0), (-4, 3, 0)),
        "same": ((0, 1, 0), 4, (0, 5, 12), (0, 10, 24)),
    }
    for name, (o, length, s, e) in cases.items():
        for n in (1, 2, 3, 5, None):
            key = f"CurvedLine:{name}:{n}"
            vals = {"o": [F(x) for x in o], "s": [F(x) for x in s]}
            args = f"o, {length}, s"
            if e is not None:
                vals["e"] = [F(x) for x in e]
                args += ", e"
            if n:
                args += f", resolution={n}"
            leaf = Known(ip, {}, vals)
            r = known.run(ip, f"out = CurvedLine({args})", {k: {"types": ["ndarray"]} for k in vals}, leaf)
            rep.saw(r)
            if r.final is None:
                rep.bad(key, "CurvedLine", f"{key}: refused")
                continue
            ip.st = r.final
            unit = lambda v: [x / math.sqrt(sum(y * y for y in v)) for x in v]  # noqa: E731
            u, w, k = unit(s), unit(e if e is not None else s), n or 1
            want = [[float(x) for x in o]]
            for i in range(k):
                d = unit(turn(u, w, (i + 0.5) / k))
                want.append([x + length / k * y for x, y in zip(want[-1], d)])
            try:
                m = leaf.full(r.env["out"], Fold(ip, leaf))
                if m is None or not all(isinstance(x, (int, float, F)) for p in m.points for x in p):
                    raise Unknown()
                why = None
                if len(m.cells) != 1 or m.cells[0][1] != list(range(len(m.points))):
                    why = "is not one line through its points in order"
                elif len(m.points) != k + 1:
                    why = f"{len(m.points) - 1} subdivisions instead of {k}"
                else:
                    for i, (p, q) in enumerate(zip(m.points, want)):
                        if not near(p, q):
                            why = f"point {i} is {[float(x) for x in p]} instead of {q}"
                            break
            except Unknown:
                rep.skip(key)
                continue
            except Fails as x:
                why = f"fails: {x}"
            rep.check(why is None, key, "CurvedLine", f"{key}: {why}")


TOURS = {
    "three": [(0, 0, 0), (2, 0, 0), (1, 0, 0)],
    "zigzag": [(0, 0, 0), (8, 0, 0), (3, 0, 0), (5, 1, 0)],
    "sorted": [(0, 0, 0), (1, 2, 0), (4, 3, 1), (6, 3, 2), (9, 1, 0)],
    "shuffled": [(6, 3, 2), (0, 0, 0), (9, 1, 0), (4, 3, 1), (1, 2, 0)],
    "square": [(0, 0), (4, 4), (4, 0), (0, 4), (2, 5)],
    "crossing": [(0, 0, 0), (6, 5, 0), (1, 4, 0), (5, 0, 0), (9, 2, 1), (3, 7, 0)],
}


def length(pts, path, close):
    path = list(path) + ([path[0]] if close else [])
    return sum(math.dist([float(x) for x in pts[a]], [float(x) for x in pts[b]]) for a, b in zip(path, path[1:]))


def reconstructed(rep, ip):
    for name, pts in TOURS.items():
        n = len(pts)
        for start in (None, 0, 1, n - 1):
            for close in (None, False, True):
                for mesh in (False, True):
                    if mesh and len(pts[0]) == 2 or mesh and start == 1:
                        continue
                    args = "p" + (f", start={start}" if start is not None else "") + (f", close={close}" if close is not None else "")
                    key = f"reconstruct_line({args}):{name}:{'mesh' if mesh else 'array'}"
                    rows = [[F(x) for x in p] for p in pts]
                    leaf = Known(ip, {"p": Mesh([(V, [i]) for i in range(n)], points=rows)}) if mesh else Known(ip, {}, {"p": rows})
                    r = known.run(ip, f"out = reconstruct_line({args})", {"p": {"types": ["PolyData" if mesh else "ndarray"]}}, leaf)
                    rep.saw(r)
                    if r.final is None:
                        rep.bad(key, "reconstruct_line", f"{key}: refused")
                        continue
                    ip.st = r.final
                    try:
                        m = leaf.full(r.env["out"], Fold(ip, leaf))
                        if m is None or not all(isinstance(x, (int, float, F)) for p in m.points for x in p):
                            raise Unknown()
                        why = tour(m, [tuple(p) + (0,) * (3 - len(p)) for p in pts], start or 0, bool(close))
                    except Unknown:
                        rep.skip(key)
                        continue
                    except Fails as e:
                        why = f"fails: {e}"
                    rep.check(why is None, key, "reconstruct_line", f"{key}: {why}")


def tour(m, pts, start, close):
    n = len(pts)
    chain = list(range(n)) + ([0] if close else [])
    cells = [ids for _, ids in m.cells]
    if cells != [[a, b] for a, b in zip(chain, chain[1:])] and cells != [chain]:
        return "is not one line through its points in order" + (", closed" if close else "")
    got = [tuple(p) for p in m.points]
    if sorted(got) != sorted(pts):
        return f"visits {[tuple(map(float, p)) for p in got]}, not every point once"
    if got[0] != pts[start]:
        return f"begins at {tuple(map(float, got[0]))} instead of point {start}"
    path = list(range(n))
    now = length(got, path, close)
    if now > length(pts, path[start:] + path[:start], close) + 1e-9:
        return "is longer than the points in the order given"
    for i in range(1, n):
        for j in range(i + 2, n + 1):
            if length(got, path[:i] + path[i:j][::-1] + path[j:], close) < now * (1 - 1e-6):
                return f"would be shorter with the points {i} to {j - 1} visited in reverse"
    return None


def rdp(pts, tol):
    """Numbers of the points Ramer-Douglas-Peucker keeps."""
    def dist(p, a, b):
        u = [y - x for x, y in zip(a, b)]
        v = [y - x for x, y in zip(a, p)]
        n = math.sqrt(sum(x * x for x in u))
        c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
        return math.sqrt(sum(x * x for x in c)) / n if n else math.sqrt(sum(x * x for x in v))

    def go(i, j):
        ds = [dist(pts[k], pts[i], pts[j]) for k in range(i, j + 1)]
        k = ds.index(max(ds))
        return go(i, i + k)[:-1] + go(i + k, j) if ds[k] > tol else [i, j]
    return go(0, len(pts) - 1)


RDP = {
    "straight": ([(0, 0, 0), (1, 0, 0), (2, 0, 0), (5, 0, 0)], None),
    "bumps": ([(0, 0, 0), (1, 0, 0), (2, 3, 0), (4, 0, 0), (5, 0, 0), (8, 0, 0)], F(1, 2)),
    "small bump": ([(0, 0, 0), (3, 0, 1), (6, 0, 0), (9, 4, 0), (12, 4, 0)], F(1, 2)),
    "within": ([(0, 0, 0), (3, 1, 0), (6, -1, 1), (10, 0, 0)], 2),
    "exactly": ([(0, 0, 0), (4, 2, 0), (10, 0, 0)], 2),
    "closed": ([(0, 0, 0), (4, 0, 0), (4, 3, 0), (0, 3, 0), (0, 0, 0)], F(1, 10)),
    "two": ([(0, 0, 0), (4, 2, 0)], 9),
    "closed, oblique": ([(0, 0, 0), (4, 4, 1), (9, 1, 0), (3, -2, 0), (0, 0, 0)], 5),
    "closed, near": ([(0, 0, 0), (4, 4, 3), (1, 1, 0), (0, 0, 0)], F(9, 2)),
    "there and back": ([(0, 0, 0), (7, 0, 0), (3, 0, 0)], 1),
}


def generic(seed, n, span):
    out, x = [], seed
    for _ in range(3 * n):
        x = (x * 1103515245 + 12345) % 2 ** 31
        out.append(x // 65536 % span)
    return [(7 * i + a, b, c) for i, (a, b, c) in enumerate(zip(out[::3], out[1::3], out[2::3]))]


for _k, _tol in enumerate((1, F(5, 2), 4, 7, 11, 6)):
    RDP[f"generic {_k}"] = (generic(_k + 5, 7, 19), _tol)
for _k, _tol in enumerate((3, 8, 14)):
    RDP[f"generic closed {_k}"] = ((lambda p: p + p[:1])(generic(_k + 31, 6, 23)), _tol)


def decimated(rep, ip):
    """Lines of one or several polylines; segments stay."""
    names = list(RDP)
    for group in [[n] for n in names] + [["bumps", "two", "small bump"], ["two", "within", "two", "bumps"]]:
        tol = next((RDP[n][1] for n in group if n != "two"), 9)
        pts, cells, want = [], [], []
        for n in group:
            p = [tuple(x + 100 * len(cells) for x in q) for q in RDP[n][0]]
            cells.append((L if len(p) == 2 else P, range(len(pts), len(pts) + len(p))))
            pts += p
            want.append([p[i] for i in rdp(p, float(tol) if tol is not None else 1e-8)])
        for extra in (False, True):
            key = f"decimate_rdp:{'+'.join(group)}:tolerance={tol}" + (":with points" if extra else "")
            all_cells = ([(V, [0])] if extra else []) + cells
            leaf = Known(ip, {"m": Mesh(all_cells, points=[[F(x) for x in p] for p in pts])}, {"tol": tol})
            r = known.run(ip, "out = decimate_rdp(m" + (", tol)" if tol is not None else ")"),
                          {"m": {"types": ["PolyData"]}, "tol": {"types": ["float"]}}, leaf)
            rep.saw(r)
            if r.final is None:
                rep.bad(key, "decimate_rdp", f"{key}: refused")
                continue
            ip.st = r.final
            try:
                m = leaf.full(r.env["out"], Fold(ip, leaf))
                if m is None or not all(isinstance(x, (int, float, F)) for p in m.points for x in p):
                    raise Unknown()
                got = [[tuple(m.points[i]) for i in ids] for _, ids in m.cells]
                why = None if got == want else f"keeps {[[tuple(map(float, p)) for p in g] for g in got]} instead of {want}"
            except Unknown:
                rep.skip(key)
                continue
            except Fails as e:
                why = f"fails: {e}"
            rep.check(why is None, key, "decimate_rdp", f"{key}: {why}")
