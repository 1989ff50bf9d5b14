"""Offsetting polygons."""
from __future__ import annotations

from fractions import Fraction

from .. import known
from ..extmodel import CELLTYPES as CT
from ..fold import Fails, Fold, Unknown
from ..known import Known, Mesh

F = Fraction
TRI, POLY, QUAD, LINE, VERT = (CT[n] for n in ("TRIANGLE", "POLYGON", "QUAD", "LINE", "VERTEX"))
SHAPES = {
    "square": [(0, 0), (1, 0), (1, 1), (0, 1)],
    "triangle": [(0, 0), (4, 0), (1, 3)],
    "right triangle": [(0, 0), (4, 0), (0, 3)],
    "trapezoid": [(0, 0), (6, 0), (4, 2), (1, 3)],
    "concave": [(0, 0), (6, 0), (6, 6), (3, 2), (0, 5)],
    "L": [(0, 0), (5, 0), (5, 2), (2, 2), (2, 6), (0, 6)],
    "with a point along an edge": [(0, 0), (2, 0), (5, 0), (5, 4), (0, 4)],
}
PLACES = {"origin": (0, 0), "right": (10, 0), "left": (-20, 1), "below": (2, -30), "about": (-2, -1), "far": (41, 57)}
EPS = 1e-9


def run(rep, ip, tier):
    """offset_polygon on seven polygons (convex and concave), in the three coordinate planes, both orientations, six places, at
    heights other than zero, for distances of both signs; several faces; refusals. Loops over faces are taken face by face; every
    edge of the result is compared with the edge it comes from."""
    rep.rule("each edge of the result lies on the line parallel to the edge it comes from, at the given distance, outside for a "
             "positive distance and inside for a negative one, whatever the orientation, the plane and the place")
    rep.rule("the constant coordinate, the number and order of the vertices and of the faces are kept; distance zero copies")
    rep.rule("meshes without faces and polygons in no coordinate plane are refused")
    for name in SHAPES:
        for axis in (0, 1, 2):
            for turn in (False, True):
                for where in PLACES:
                    for d in ("1/8", "-1/8"):
                        key = f"{name}:{'xyz'[axis]} const:{'clockwise' if turn else 'counterclockwise'}:{where}:{d}"
                        one(rep, ip, key, [(name, axis, turn, where, 7)], F(d))
    several = [("square", 2, False, "right", 0), ("L", 2, True, "left", 3), ("triangle", 2, False, "below", -5)]
    for d in ("1/8", "-1/8", "0"):
        one(rep, ip, f"three faces:{d}", several, F(d))
        one(rep, ip, f"three faces, vertices and lines:{d}", several, F(d), extra=True)
        one(rep, ip, f"faces in several planes:{d}", [("triangle", 0, True, "far", 4), ("square", 1, False, "right", -2)], F(d))
        one(rep, ip, f"array:{d}", [("concave", 2, True, "far", 6)], F(d), array=True)
        one(rep, ip, f"array in the plane y:{d}", [("L", 1, False, "below", 6)], F(d), array=True)
    pts = [[F(x) for x in p] for p in [(0, 0, 0), (1, 0, 0), (1, 1, 1), (0, 1, 2)]]
    for bad, cells in {"tilted": [(QUAD, range(4))], "no faces": [(LINE, [0, 1])], "on a line": [(TRI, [0, 1, 4])]}.items():
        refused(rep, ip, bad, Mesh(cells, points=pts + [[F(3), F(0), F(0)]]))


def ring(name, axis, turn, where, h):
    dx, dy = PLACES[where]
    out = [(F(x + dx), F(y + dy)) for x, y in SHAPES[name]]
    return out[::-1] if turn else out


def lift(p, axis, h):
    p = list(p)
    return p[:axis] + [F(h)] + p[axis:]


def shift(poly, d):
    """Vertices moved so that every edge moves by d to the outside."""
    n = len(poly)
    area = sum(poly[i][0] * poly[(i + 1) % n][1] - poly[(i + 1) % n][0] * poly[i][1] for i in range(n))
    s = 1 if area > 0 else -1
    lines = []
    for i in range(n):
        (x0, y0), (x1, y1) = poly[i], poly[(i + 1) % n]
        tx, ty = x1 - x0, y1 - y0
        r = float(tx * tx + ty * ty) ** 0.5
        nx, ny = s * ty / r, -s * tx / r
        lines.append((nx, ny, nx * x0 + ny * y0 + float(d)))
    out = []
    for i in range(n):
        (a, b, e), (p, q, g) = lines[i - 1], lines[i]
        det = a * q - b * p
        if abs(det) < 1e-12:
            out.append((float(poly[i][0]) + a * float(d), float(poly[i][1]) + b * float(d)))
        else:
            out.append(((e * q - b * g) / det, (a * g - e * p) / det))
    return out


def one(rep, ip, key, faces, d, extra=False, array=False):
    key = "offset_polygon:" + key
    pts, cells, want = [], [], []
    if extra:
        pts += [[F(90), F(91), F(92)], [F(93), F(95), F(94)]]
        cells += [(VERT, [1]), (LINE, [0, 1])]
    for f in faces:
        r = ring(*f)
        base, n = len(pts), len(r)
        ids = list(range(base, base + n))
        if not array:
            ids = [base + (i + 2) % n for i in range(n)]
        rows = [None] * n
        for i, p in zip(ids, r):
            rows[i - base] = lift(p, f[1], f[4])
        pts += rows
        cells.append(({3: TRI, 4: QUAD}.get(n, POLY), ids))
        want.append([lift(p, f[1], f[4]) for p in shift(r, d)])
    m = Mesh(cells, points=pts)
    if array:
        leaf = Known(ip, {}, values={"m": pts, "d": d})
        r = known.run(ip, "out = offset_polygon(m, d)", {"m": {"types": ["ndarray"]}, "d": {"types": ["float"]}}, leaf)
    else:
        leaf = Known(ip, {"m": m}, values={"d": d})
        r = known.run(ip, "out = offset_polygon(m, d)", {"m": {"types": ["PolyData"]}, "d": {"types": ["float"]}}, leaf)
    rep.saw(r)
    if r.final is None:
        rep.bad(key, "offset_polygon", f"{key}: refused")
        return
    if not known.accepted(r):
        rep.skip(key)
        return
    ip.st = r.final
    fold = Fold(ip, leaf)
    leaf.fold = fold
    try:
        out = leaf.full(r.env["out"], fold)
        if out is None:
            rep.skip(key)
            return
        why = compare(out, m, want, d)
    except Unknown:
        rep.skip(key)
        return
    except Fails as e:
        why = f"fails: {e}"
    rep.check(why is None, key, "offset_polygon", f"{key}: {why}")


def compare(out, m, want, d):
    faces = [(t, ids) for t, ids in out.cells if t in known.FACES]
    if d == 0:
        return None if out.cells == m.cells and out.points == m.points else "distance zero does not copy"
    if len(faces) != len(want):
        return f"gives {len(faces)} faces instead of {len(want)}"
    for k, ((t, ids), w) in enumerate(zip(faces, want)):
        if len(ids) != len(w):
            return f"face {k} has {len(ids)} vertices instead of {len(w)}"
        got = [[float(x) for x in out.points[i]] for i in ids]
        for i, (p, q) in enumerate(zip(got, w)):
            if len(p) != 3 or not all(abs(x - float(y)) < EPS for x, y in zip(p, q)):
                return f"vertex {i} of face {k} is at {short(p)} instead of {short(q)}"
    return None


def short(p):
    return "(" + ", ".join(f"{float(x):.6g}" for x in p) + ")"


def refused(rep, ip, bad, m):
    for d in ("1/8", "-1/8"):
        key = f"offset_polygon:{bad}:{d}"
        leaf = Known(ip, {"m": m}, values={"d": F(d)})
        r = known.run(ip, "out = offset_polygon(m, d)", {"m": {"types": ["PolyData"]}, "d": {"types": ["float"]}}, leaf)
        rep.saw(r)
        if r.final is not None and not known.accepted(r):
            rep.skip(key)
            continue
        rep.check(r.final is None, key, "offset_polygon", f"{key}: accepted")
