"""Transitions between levels of different resolution in a stack of lines."""
from __future__ import annotations

from fractions import Fraction

from .. import known
from ..extmodel import CELLTYPES as CT
from ..fold import Fails, Fold, Unknown
from ..known import Known, Mesh

F = Fraction
LINE, TRI, QUAD = 3, CT["TRIANGLE"], CT["QUAD"]
OPAQUE = ("split_lines", "RegularLine", "Polygon", "generate_surface_from_two_lines", "merge", "remap_categorical_data")
WHERE = "MeshStack2D.generate_mesh"
PLANES = {"xy": (0, 1), "yx": (1, 0), "xz": (0, 2), "zx": (2, 0), "yz": (1, 2), "zy": (2, 1)}


def segments(pts):
    return Mesh([(LINE, [i, i + 1]) for i in range(len(pts) - 1)], points=pts, name="line")


def wire(pts):
    return Mesh([(LINE if len(pts) == 2 else 4, list(range(len(pts))))], points=pts, name="line")


class Stack(Known):
    """Lines, the strips between two of them, triangulations of an outline and all of them joined."""

    def _mesh(self, t, fold):
        if t.op == "call" and t.args[0].op in ("func", "glob"):
            n = str(t.args[0].args[0]).split(".")[-1]
            f = getattr(self, "make_" + n, None)
            if f is not None and not str(t.args[0].args[0]).startswith("pyvista."):
                names = {"Polygon": ("shell", "holes", "celltype"), "RegularLine": ("points", "resolution"),
                         "generate_surface_from_two_lines": ("a", "b", "plane", "resolution", "method"), "merge": ("dataset", "axis", "merge_points"),
                         "split_lines": ("mesh", "as_lines")}[n]
                k = dict(t.args[2])
                k.update(zip(names, t.args[1]))
                return self.moved(f(t, k, fold), t, fold)
        if t.op == "index" and t.args[0].op == "call" and str(t.args[0].args[0].args[0]).split(".")[-1] == "split_lines":
            m = self.placed(t.args[0].args[1][0], fold)
            if m is None or fold.of(t.args[1]) not in (0, -1):
                raise Unknown()
            if len(m.cells) != 1 and not all(c == LINE for c, _ in m.cells):
                raise Unknown()
            one = len(m.cells) == 1
            out = segments(m.points if one else m.points[:2])
            out.cell_data.update({k: v[:1] * len(out.cells) for k, v in m.cell_data.items()})
            out.user.update(m.user)
            return self.moved(out, t, fold)
        return super()._mesh(t, fold)

    def make_RegularLine(self, t, k, fold):
        pts, n = fold.of(k["points"]), fold.of(k["resolution"])
        if set(k) - {"points", "resolution"} or type(n) is not int or n < 1:
            raise Unknown()
        a, b = pts[0], pts[-1]
        return wire([[x + (y - x) * F(i, n) for x, y in zip(a, b)] for i in range(n + 1)])

    def make_Polygon(self, t, k, fold):
        pts = fold.of(k["shell"])
        if isinstance(pts, Mesh) or set(k) - {"shell", "celltype"}:
            raise Unknown()
        kind = fold.of(k["celltype"]) if "celltype" in k else "polygon"
        pts = [list(p) for p in pts]
        if kind == "polygon":
            cells = [(CT["POLYGON"], range(len(pts)))]
        elif kind in ("triangle", "quad"):
            cells = [(TRI, [0, i, i + 1]) for i in range(1, len(pts) - 1)]
        else:
            raise Unknown()
        m = Mesh(cells, points=pts, kind="UnstructuredGrid", name="bridge")
        m.what = ("bridge", kind)
        return m

    def make_generate_surface_from_two_lines(self, t, k, fold):
        a, b = self.full(k["a"], fold), self.full(k["b"], fold)
        if a is None or b is None:
            raise Unknown()
        if len(a.points) != len(b.points):
            raise Fails("lines of different lengths")
        n = fold.of(k["resolution"]) if "resolution" in k else None
        n = 1 if n is None else n
        if type(n) is not int or n < 1 or ("method" in k and fold.of(k["method"]) not in (None, "constant")):
            raise Unknown()
        plane = fold.of(k["plane"]) if "plane" in k else "xy"
        if plane not in PLANES:
            raise Fails("invalid plane")
        rows = [[[x + (y - x) * F(i, n) for x, y in zip(p, q)] for p, q in zip(a.points, b.points)] for i in range(n + 1)]
        data = {x: list(v) for x, v in a.cell_data.items()}
        i, j = PLANES[plane]
        if i > j:
            rows = [list(c) for c in zip(*rows)]
            data = {x: [c for c in v for _ in range(n)] for x, v in data.items()}
        else:
            data = {x: v * n for x, v in data.items()}
        w = len(rows[0])
        cells = [(QUAD, [r * w + c, r * w + c + 1, (r + 1) * w + c + 1, (r + 1) * w + c]) for r in range(len(rows) - 1) for c in range(w - 1)]
        m = Mesh(cells, points=[p for r in rows for p in r], kind="StructuredGrid", name="strip", cell_data=data)
        dims = [1, 1, 1]
        dims[min(i, j)], dims[max(i, j)] = w, len(rows)
        m.dims, m.what = tuple(dims), ("strip", n)
        return m

    def make_merge(self, t, k, fold):
        if set(k) - {"dataset", "axis", "merge_points"}:
            raise Unknown()
        a = self.ip.literal(k["dataset"], fold.heap) if k["dataset"].op == "obj" else k["dataset"].args
        parts = [self.full(x, fold) for x in (a or ())]
        if not parts or any(x is None for x in parts):
            raise Unknown()
        pts, cells, data = [], [], {}
        keys = set.intersection(*[set(p.cell_data) for p in parts])
        for p in parts:
            if any(len(p.cell_data[n]) != len(p.cells) for n in keys):
                raise Fails("data of another length than the mesh")
            cells += [(c, [i + len(pts) for i in ids]) for c, ids in p.cells]
            pts += p.points
        for n in keys:
            data[n] = [x for p in parts for x in p.cell_data[n]]
        m = Mesh(cells, points=pts, kind="UnstructuredGrid", name="joined", cell_data=data)
        m.parts = parts
        return m

    @staticmethod
    def dup(m):
        out = Known.dup(m)
        for n in ("dims", "what", "parts"):
            if hasattr(m, n):
                setattr(out, n, getattr(m, n))
        return out

    def do_clean(self, m, a, k):
        return m

    def attr(self, m, n):
        if n == "dimensions" and hasattr(m, "dims"):
            return m.dims
        return super().attr(m, n)


UP = {0: (1, 0), 1: (0, 1), 2: (0, 2)}          # along the line, along the stack
LEVELS = {"0": lambda u: 0, "flat": lambda u: 5, "tilted": lambda u: 5 + u / 2, "bent": lambda u: 9 + (u - 3) * (u - 3) / 4, "high": lambda u: 30, "low": lambda u: 2 + u / 8,
          "higher": lambda u: 40 - u}
TEXT = {"0": "0.0 * {u}", "flat": "5 + 0.0 * {u}", "tilted": "5 + {u} / 2", "bent": "9 + ({u} - 3.0) ** 2 / 4", "high": "30 + 0.0 * {u}", "low": "2 + {u} / 8",
        "higher": "40 - {u}"}
# level: (name or distance, resolution, group, priority, thickness); transition: number of segments or the places of another line
CASES = {
    "first": [("0",), 5, ("flat", 1, "T")],
    "first, another line": [("0",), (0, 2, 6), ("flat", 4, None)],
    "none": [("0",), ("flat", 2, "A"), ("high", 3, None)],
    "between": [("0",), ("flat", 2, "A"), 5, ("high", 1, "T"), (3, 3, "B")],
    "between, another line": [("0",), ("tilted", 2, None), (0, F(1, 2), 1, 5, 6), ("high", 7, "T"), (3, 1, "T")],
    "finer and back": [("0",), (1, 1, "A"), 7, ("bent", 3, "B"), (2, 2, "A"), (0, 1, 4, 6), ("high", 3, "B"), (1, 1, None)],
    "two in a row": [("0",), 2, ("flat", 1, "A"), 6, ("bent", 1, "B"), ("high", 2, "C")],
    "same line": [("0",), ("flat", 1, "A"), 3, ("high", 2, "B"), ("higher", 2, "A")],
    "same line, too thin": [("0",), 3, ("flat", 2, "A", 0, 8), ("high", 1, "B", 0, 30)],
    "as many points, crossing": [("flat", 1, None, 1), (0, 2, 3, 6), ("low", 1, "A", 0, 1), (2, 1, "B")],
    "as many points, crossing, yielding": [("flat", 1, None, 0), (0, 2, 3, 6), ("low", 1, "A", 3), (2, 1, "B")],
    "set twice": [("0",), ("flat", 1, "A"), 9, 2, ("high", 2, "B")],
    "set before the first level": [5, ("0",), ("flat", 2, "A"), (4, 1, None)],
    "crossing": [("flat",), 4, ("low", 1, "A"), (3, 1, "B")],
    "crossing later": [("0",), 4, ("bent", 1, "A"), ("flat", 1, "B", 0, 1), ("high", 2, None)],
    "crossing later, yielding": [("0", 1, None, 2), 4, ("bent", 1, "A", 3, 7), ("flat", 1, "B", 1, F(1, 2)), ("high", 2, None)],
    "crossing before": [("tilted", 1, None, 1), ("low", 1, "A", 0, 1), 4, ("high", 1, "T", 5, 20), (1, 2, "A")],
}


def run(rep, ip, tier):
    """Stacks of lines with transitions, along the three axes and both ways; strips between two lines and triangulations are those of the scene. The outline the
    transition fills, the levels on both sides and the groups and numbers of all cells are compared with those of the sequence of calls."""
    rep.rule("a transition fills the loop along the lower level and back along the upper one with triangles, whatever their distance, thickness or priority; only the "
             "level added next is reached by a transition")
    rep.rule("levels after a transition are made on the new line and keep to the rules of levels")
    rep.rule("a transition is one layer, in no column (-1), one item, of its group; the numbers of the layers above go on from it")
    for name in CASES:
        for axis in (0, 1, 2):
            for up in (True, False):
                for at in (0, -7) if tier != "quick" or axis == 2 else (0,):
                    one(rep, ip, name, axis, up, at)
        one(rep, ip, name, 2, True, 0, base=2)
        one(rep, ip, name, 0, True, 0, default="D")


def spread(n, lo, hi):
    return [lo + (hi - lo) * F(i, n) for i in range(n + 1)]


def one(rep, ip, name, axis, up, at, base=None, default=None):
    key = f"MeshStack2D:{name}:axis {axis}:{'up' if up else 'down'}:{at}:{base or ''}:{default or ''}"
    along, over = UP[axis]
    sign = 1 if up else -1

    def point(u, h=0):
        p = [F(-2)] * 3
        p[along], p[over] = F(u) + at, F(h)
        return p
    us = [F(x) for x in (0, 1, 4, 6)]
    line = wire([point(u) for u in us])
    if base:
        line.cell_data["CellGroup"] = [base]
        line.user["CellGroup"] = {"G1": 1, "G2": 2}
    meshes, params = {"b": line}, {"b": {"types": ["PolyData"]}}
    src = [f"s = MeshStack2D(b, axis={axis}, bottom_up={up}" + (f", default_group={default!r}" if default else "") + ")"]
    levels, flag, groups = [], False, base
    for n, c in enumerate(CASES[name]):
        if not isinstance(c, tuple) or not isinstance(c[0], str) and len(c) > 2 and not isinstance(c[2], (str, type(None))):
            if isinstance(c, tuple):
                us = [F(x) for x in c]
                meshes[f"t{n}"], params[f"t{n}"] = wire([point(u) for u in us]), {"types": ["PolyData"]}
                src.append(f"s.set_transition(t{n})")
            else:
                us = spread(c, us[0], us[-1])
                src.append(f"s.set_transition({c})")
            flag, groups = True, None
            continue
        what, res, group, prio, thick = tuple(c) + (None, None, 0, 0)[len(c) - 1:] if len(c) < 5 else c
        opts = ([f"{res}"] if res is not None else []) + [f"group={group!r}"] * bool(group) + [f"priority={prio}"] * bool(prio) + [f"thickness={float(thick)}"] * bool(thick)
        if isinstance(what, str):
            hs = [sign * F(LEVELS[what](u)) for u in us]
            arg = f"lambda x, y, z: {sign}.0 * (" + TEXT[what].format(u=f"({chr(120 + along)} - {at}.0)") + ")"
        else:
            hs = [h + sign * what for h in levels[-1]["raw"]]
            arg = f"{float(what)}"
        src.append(f"s.add({', '.join([arg] + opts)})")
        first = not levels
        levels.append(dict(us=list(us), raw=list(hs), hs=list(hs), res=res or 1, group=group, prio=prio, thick=F(thick), bridge=flag and not first, base=groups))
        flag = False
    src.append("out = s.generate_mesh()")
    leaf = Stack(ip, meshes)
    r = known.run(ip, "\n".join(src), params, leaf, opaque=OPAQUE)
    rep.saw(r)
    if r.final is None:
        rep.bad(key, WHERE, f"{key}: refused")
        return
    if not known.accepted(r):
        rep.skip(key)
        return
    ip.st = r.final
    leaf.fold = fold = Fold(ip, leaf)
    try:
        out = leaf.full(r.env["out"], fold)
        if out is None or not hasattr(out, "parts"):
            rep.skip(key)
            return
        bad = compare(out, levels, point, sign, default or "default")
    except (Unknown, TypeError, KeyError, IndexError, ValueError):
        rep.skip(key)
        return
    except Fails as e:
        rep.bad(key, WHERE, f"{key}: {e.what}")
        return
    rep.check(not bad, key, WHERE, f"{key}: {bad}")


def compare(out, levels, point, sign, default):
    for lo, hi in zip(levels, levels[1:]):
        if hi["bridge"]:
            continue
        for i in range(len(lo["us"])):
            short = hi["thick"] - sign * (hi["hs"][i] - lo["hs"][i])
            if short > 0 and hi["prio"] < lo["prio"]:
                hi["hs"][i] += sign * short
            elif short > 0:
                lo["hs"][i] -= sign * short
    names = {c: n for n, c in out.user["CellGroup"].items()}
    if len(out.parts) != len(levels) - 1:
        return f"{len(out.parts)} parts between {len(levels)} levels"
    layer = 0
    seen = 0
    for i, (lo, hi, p) in enumerate(zip(levels, levels[1:], out.parts)):
        a, b = ([point(u, h) for u, h in zip(l["us"], l["hs"])] for l in (lo, hi))
        kind = "transition" if hi["bridge"] else "item"
        if p.what[0] != ("bridge" if hi["bridge"] else "strip"):
            return f"item {i} should be {'a transition' if hi['bridge'] else 'extruded'}"
        n = len(p.cells)
        data = {k: out.cell_data[k][seen:seen + n] for k in ("CellGroup", "LayerId", "ColumnId", "StackItem")}
        seen += n
        if hi["bridge"]:
            if p.what[1] != "triangle":
                return f"the transition is made of {p.what[1]} cells"
            loop = a + b[::-1]
            if not same_loop(p.points, loop):
                return f"the transition (item {i}) does not fill the loop of its two levels: {[[str(x) for x in q] for q in p.points]}"
            want = [(hi["group"] or default, layer, -1, i)] * n
            layer += 1
        else:
            k, m = hi["res"], len(a) - 1
            rows = [[[x + (y - x) * F(l, k) for x, y in zip(u, v)] for u, v in zip(a, b)] for l in range(k + 1)]
            where = {}
            for l in range(k):
                for c in range(m):
                    mid = middle([rows[l][c], rows[l][c + 1], rows[l + 1][c], rows[l + 1][c + 1]])
                    g = hi["group"] or (f"G{lo['base']}" if lo["base"] else default)
                    where.setdefault(mid, []).append((g, layer + l, c, i))
            want = []
            for _, ids in p.cells:
                mid = middle([p.points[j] for j in ids])
                if mid not in where:
                    return f"item {i} does not lie between its two levels"
                want.append(where[mid].pop(0))
                if not where[mid]:
                    del where[mid]
            if where:
                return f"item {i}: {len(where)} cells are missing"
            layer += k
        for j, w in enumerate(want):
            got = (names.get(data["CellGroup"][j]), data["LayerId"][j], data["ColumnId"][j], data["StackItem"][j])
            if got != w:
                return f"cell {j} of the {kind} {i} is (group, layer, column, item) {got}, should be {w}"
    return None


def middle(pts):
    return tuple(round(float(sum(x)), 6) for x in zip(*pts))


def same_loop(p, q):
    p, q = ([[round(float(x), 6) for x in v] for v in l] for l in (p, q))
    if len(p) != len(q):
        return False
    return any(p[i:] + p[:i] in (q, q[::-1]) for i in range(len(p)))
