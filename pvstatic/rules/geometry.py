"""Where the points of extruded and stacked meshes are."""
from __future__ import annotations

from ..algebra import NF, ONE, ZERO, Cases, Value, digits_of
from ..arrays import Mismatch, Unknown
from ..report import Broken
from ..scene import Scene
from ..terms import const, is_glob, mk
from .layout import PLANES, ctor, joined, undecided

FULL = mk("slice", const(None), const(None), const(None))


# ---------------------------------------------------------------- reading coordinates
def layers_of(sc, r, n_items, axis):
    """Per item: (layer digits, [x, y, z element expressions], digits of the base point)."""
    t = r.env["m"]
    g = sc.A.grid(t)
    if g is not None:
        if len(g.dims[axis]) != 1:
            return None
        d = g.dims[axis][0]
        base = sum((g.dims[q] for q in (2, 1, 0) if q != axis), ())
        if n_items == 1:
            return [((d,), list(g.coords), base)]
        cs = [joined(c, d) for c in g.coords]
        if any(c is None or len(c) != n_items for c in cs):
            return None
        if any([p[0] for p in c] != [p[0] for p in cs[0]] for c in cs[1:]):
            return None
        return [(sum((tuple(c[i][2]) for c in cs), ()), [c[i][1] for c in cs], base) for i in range(n_items)]
    parts = None
    for ev in r.events:
        if ev.kind == "call" and ev.term.op == "call" and is_glob(ev.term.args[0], "pyvista.merge") and ev.term.args[1]:
            lit = sc.ip.literal(ev.term.args[1][0]) or ev.term.args[1][0].args
            parts = [ctor(sc, x) if hasattr(x, "op") else None for x in lit]
    t = sc.A.pick(t)
    while t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "clean":
        t = sc.A.pick(t.args[0].args[0])
    if n_items == 1 and ctor(sc, t) is not None:
        parts = [ctor(sc, t)]
    if not parts or any(p is None for p in parts) or len(parts) != n_items:
        return None
    out = []
    for p in parts:
        es = []
        for i in range(3):
            a = sc.A.arr(mk("index", p.args[1][2], mk("tuple", FULL, const(i))))
            if a is None or a.ndim != 1 or len(a.axes[0]) != 2:
                return None
            es.append(a.elem)
            ax = a.axes[0]
        out.append((ax[:1], es, ax[1:]))
    return out


class Points:
    """Values of coordinates in one case; leaves are the surfaces' heights and the base's own coordinates."""

    def __init__(self, sc, base, cases, heights, along):
        self.sc, self.base, self.along = sc, base, set(along)
        self.heights = heights
        self.v = Value(sc.A, cases, self.leaf)

    def leaf(self, e):
        src = e[1]
        order = None
        if isinstance(src, tuple) and src and src[0] == "via":
            order, src = src[2], src[1]
        ds = digits_of(e[2])
        if any(a in self.along or getattr(a, "of", None) in self.along for a in ds):
            return NF.of(("pos",))
        h = self.heights.get(src)
        if h is not None:
            if e[2] != (("radix", self.base),):
                raise Mismatch()
            return h
        return None

    def ends(self, e):
        """[((value at the start, value at the end) of the layers, choices)], one per outcome of undecided conditions."""
        out = []
        for nf, f in self.v.paths(e):
            if any(("pos",) in digits_of_atoms(a) for a in nf.atoms()):
                raise Unknown()
            out.append((tuple(nf.subst(lambda a, x=x: x if a == ("pos",) else None) for x in (ZERO, ONE)), f))
        return out


def digits_of_atoms(a):
    """Positions hidden inside another atom (a function of the position)."""
    out, stack = set(), [a] if a != ("pos",) else []
    while stack:
        x = stack.pop()
        if x == ("pos",):
            out.add(x)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)
        elif isinstance(x, NF):
            stack.extend(x.m)
    return out


# ---------------------------------------------------------------- stacks
def stack_scene(ip, kind, axis, fill):
    sc = Scene(ip)
    if kind == "structured":
        sc.structured("mesh", axis)
    elif kind == "unstructured":
        sc.unstructured("mesh")
    else:
        sc.line("mesh")
    for q in ("r1", "r2"):
        sc.resolution(q, "int")
    fill(sc)
    return sc


def own(sc, kind, e, i):
    """*e* is coordinate *i* of the base's own point."""
    if e[0] != "at":
        return False
    src = e[1][1] if isinstance(e[1], tuple) and e[1][0] == "via" else e[1]
    if kind == "structured":
        return src == mk("attr", mk("sym", "mesh"), "xyz"[i])
    return src.op == "attr" and src.args[1] == "points" and e[2][-1] == ("int", i)


def kinds(tier):
    for ax in (0, 1, 2):
        yield "structured", ax, "MeshStack3D"
        yield "unstructured", ax, "MeshStack3D"
        yield "line", ax, "MeshStack2D"


def surfaces_in(r, names):
    """Calls of the callables: (name, args)."""
    for ev in r.events:
        if ev.kind == "call" and ev.term.op == "call" and ev.term.args[0].op == "sym" and ev.term.args[0].args[0] in names:
            yield ev.term.args[0].args[0], ev.term.args[1]


def run_stack(rep, ip, tier):
    """Stacks two and three symbolic surfaces on every base type and axis, reads the coordinates of the generated mesh
    as exact expressions and compares the ends of every item with the surfaces in each case of the gap between them."""
    rep.rule("without conflict each item reaches from its own surface to the next one")
    rep.rule("where the gap is below the thickness, the surface of lower priority gives way (the lower one when equal) to exactly the thickness")
    rep.rule("a number is the absolute position of the first surface and a distance from the previous one afterwards")
    rep.rule("only the coordinate along the stack axis changes")
    n = 0
    for kind, ax, cls in kinds(tier):
        for up in (True, False):
            n += heights(rep, ip, kind, ax, cls, up)
            n += pair(rep, ip, kind, ax, cls, up)
            n += triple(rep, ip, kind, ax, cls, up)
    if not n:
        raise Broken("no stack could be followed")
    rep.note = f"{n} cases of gaps, priorities and directions"


def report(rep, sc, P, es, want, ax, kind, label, key, what):
    """Compare the ends of one item; other coordinates are the base's own."""
    for i in range(3):
        try:
            ends = P.ends(es[i])
        except Mismatch:
            rep.bad(f"{key}:point", label, f"{label}: {'xyz'[i]} is taken from another point of the surface")
            continue
        except Unknown:
            rep.skip(f"{key}:{what}")
            continue
        ok, (lo, hi) = P.v.verdict(ends, (lambda x: x == want) if i == ax else (lambda x: unmoved(sc, kind, i, *x)))
        if ok is None:
            rep.skip(f"{key}:{what}")
            continue
        if i == ax:
            rep.check(ok, f"{key}:{what}", label,
                      f"{label}: the item reaches from {lo} to {hi} instead of {want[0]} to {want[1]}")
        else:
            rep.check(ok, f"{key}:moved", label, f"{label}: {'xyz'[i]} is not that of the base: {lo} .. {hi}")


def unmoved(sc, kind, i, lo, hi):
    return lo == hi and len(lo.m) == 1 and all(len(k) == 1 and own(sc, kind, k[0][0], i) and k[0][1] == 1 and c == 1
                                               for k, c in lo.m.items())


def follow(rep, ip, kind, ax, cls, up, adds, fill, n_items, key, label):
    sc = stack_scene(ip, kind, ax, fill)
    code = f"b = {cls}(mesh, axis={ax}, bottom_up={up})\n" + "".join(f"b.add({a})\n" for a in adds) + "m = b.generate_mesh()\n"
    r = sc.run(code)
    rep.saw(r)
    items = layers_of(sc, r, n_items, ax) if r.final is not None else None
    if items is None:
        undecided(rep, sc, r.env.get("m"), key, label)
    return sc, r, items


def sym(n):
    return mk("sym", n)


def heights(rep, ip, kind, ax, cls, up):
    """Numbers: absolute, then distances."""
    label, key = f"{cls}({kind}, axis {ax}, bottom_up={up})", f"{cls}:{kind}"
    s = NF.of(1 if up else -1)
    sc, r, items = follow(rep, ip, kind, ax, cls, up, ["s0", "s1, r1", "s2, r2"], lambda sc: sc.number("s0", "s1", "s2"), 2,
                          f"{key}:numbers", label)
    if items is None:
        return 0
    k = {n: NF.of(("k", sym(n))) for n in ("s0", "s1", "s2")}
    z, n = k["s0"], 0
    for sg1 in "+-":
        for sg2 in "+-":
            c = Cases({("k", sym("s1")): sg1, ("k", sym("s2")): sg2})
            a1 = k["s1"] if sg1 == "+" else -k["s1"]
            a2 = k["s2"] if sg2 == "+" else -k["s2"]
            lv = [z, z + s * a1, z + s * a1 + s * a2]
            for i, (along, es, base) in enumerate(items):
                P = Points(sc, base, c, {}, along)
                report(rep, sc, P, es, (lv[i], lv[i + 1]), ax, kind, label, key, "numbers")
                n += 1
    return n


def pair(rep, ip, kind, ax, cls, up):
    label0, key = f"{cls}({kind}, axis {ax}, bottom_up={up})", f"{cls}:{kind}"
    s = NF.of(1 if up else -1)
    n = 0
    for p0, p1 in ((0, 0), (1, 0), (0, 1), (-1, -2), (-2, -1), (-1, -1), (2, 2), (3, -3), (-3, 3)):
        for thick in (False, True):
            label = f"{label0}, priorities {p0}/{p1}"
            adds = [f"f0, priority={p0}", f"f1, r1, priority={p1}" + (", thickness=t1" if thick else "")]
            sc, r, items = follow(rep, ip, kind, ax, cls, up, adds, lambda sc: (sc.surface("f0", "f1"), sc.number("t1")), 1,
                                  f"{key}:surfaces", label)
            if items is None:
                continue
            if (p0, p1, thick) == (0, 0, False):
                arguments(rep, sc, r, ("f0", "f1"), kind, label, key)
            t = NF.of("t") if thick else ZERO
            F0, d = NF.of("F0"), NF.of("d")
            for sd in "+0-":
                dd = ZERO if sd == "0" else d
                F1 = F0 + s * (t + dd)
                c = Cases({"t": "+", "d": sd}, {sym("t1"): t, ("k", sym("t1")): t})
                lo, hi = F0, F1
                if sd == "-":
                    if p1 < p0:
                        hi = F0 + s * t
                    else:
                        lo = F1 - s * t
                (along, es, base), = items
                P = Points(sc, base, c, {sym("f0"): F0, sym("f1"): F1}, along)
                gap = {"+": "enough room", "0": "just enough room", "-": "too little room"}[sd]
                report(rep, sc, P, es, (lo, hi), ax, kind, f"{label}, {gap}{' for the thickness' if thick else ''}", key, "surfaces")
                n += 1
    return n


def triple(rep, ip, kind, ax, cls, up):
    """Three surfaces, one conflict: the surface between two items is the same for both."""
    label0, key = f"{cls}({kind}, axis {ax}, bottom_up={up})", f"{cls}:{kind}"
    s = NF.of(1 if up else -1)
    n = 0
    for prio in ((0, 0, 0), (2, 1, 0), (0, 1, 2), (1, 0, 1)):
        label = f"{label0}, priorities {prio}"
        adds = [f"f0, priority={prio[0]}"] + [f"f{i}, r{i}, priority={prio[i]}, thickness=t{i}" for i in (1, 2)]
        sc, r, items = follow(rep, ip, kind, ax, cls, up, adds, lambda sc: (sc.surface("f0", "f1", "f2"), sc.number("t1", "t2")), 2,
                              f"{key}:three", label)
        if items is None:
            continue
        F0, t1, t2 = NF.of("F0"), NF.of("t1"), NF.of("t2")
        d1, d2 = NF.of("d1"), NF.of("d2")
        for s1, s2 in (("+", "+"), ("-", "+"), ("+", "-"), ("0", "0")):
            c = Cases({"t1": "+", "t2": "+", "d1": s1, "d2": s2},
                      {sym("t1"): t1, ("k", sym("t1")): t1, sym("t2"): t2, ("k", sym("t2")): t2})
            e1, e2 = (d1 if s1 != "0" else ZERO), (d2 if s2 != "0" else ZERO)
            F1 = F0 + s * (t1 + e1)
            S0, S1 = F0, F1
            if s1 == "-":
                if prio[1] < prio[0]:
                    S1 = F0 + s * t1
                else:
                    S0 = F1 - s * t1
            F2 = S1 + s * (t2 + e2)
            S2 = F2
            if s2 == "-":
                if prio[2] < prio[1]:
                    S2 = S1 + s * t2
                else:
                    S1 = F2 - s * t2
            want = [(S0, S1), (S1, S2)]
            for i, (along, es, base) in enumerate(items):
                P = Points(sc, base, c, {sym("f0"): F0, sym("f1"): F1, sym("f2"): F2}, along)
                report(rep, sc, P, es, want[i], ax, kind, f"{label}, conflict {s1}{s2}, item {i}", key, "three")
                n += 1
    return n


def arguments(rep, sc, r, names, kind, label, key):
    """The callables get x, y and z of the base's points."""
    for name, args in surfaces_in(r, names):
        if len(args) == 1 and args[0].op == "star":
            t = args[0].args[0]
            parts = [mk("index", t, const(i)) for i in range(3)]
        else:
            parts = list(args)
        if len(parts) != 3:
            rep.bad(f"{key}:arguments", label, f"{label}: the callable gets {len(parts)} arguments")
            continue
        for i, p in enumerate(parts):
            a = sc.A.arr(p)
            if a is None:
                rep.skip(f"{key}:arguments")
            else:
                rep.check(a.ndim == 1 and own_base(a.elem, i), f"{key}:arguments", label,
                          f"{label}: argument {i} of the callable is not the {'xyz'[i]} of the base's points")


def own_base(e, i):
    if e[0] != "at" or isinstance(e[1], tuple) or e[1].op != "attr":
        return False
    return e[1].args[1] == "xyz"[i] or e[1].args[1] == "points" and e[2][-1] == ("int", i)
