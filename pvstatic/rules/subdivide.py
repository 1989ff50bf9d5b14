"""How finely every direction is subdivided and how its layers are spaced."""
from __future__ import annotations

from ..algebra import NF, ONE, Cases, digits_of
from ..arrays import Atom, Mismatch, Unknown, _Wrap, axlen, subst
from ..report import Broken
from ..scene import NR
from ..seq import Fractions, Sequences
from ..terms import mk
from .geometry import layers_of, stack_scene
from .layout import undecided
from .shapes import bound, CURV, SHAPES, blocks_of, case_of, extruded, extrusions, grid_of, options, run_scene

SPACING = {"0": "evenly spaced", "+": "growing from first to last", "-": "shrinking from first to last"}


def size(A, cases, ds):
    """Number of points along the digits *ds* in a case."""
    return Sequences(A, cases).nf(axlen(ds))


def wanted(kind, name, low):
    if kind == "none" or low:
        return NF.of(2)
    if kind == "array":
        return NF.of(("n_res",))
    return NF.of(("n", name)) + ONE


def count(rep, A, cases, ds, want, key, label, what):
    try:
        got = size(A, cases, ds)
    except (Unknown, Mismatch):
        rep.skip(f"{key}:count")
        return
    rep.check(got == want, f"{key}:count", label, f"{label}: {what} has {got} points instead of {want}")


def with_arrays(cases, kind):
    """Explicit arrays have n_res points."""
    if kind == "array":
        cases.values[NR] = NF.of(("n_res",)) - ONE
        cases.values[("k", NR)] = NF.of(("n_res",)) - ONE
    return cases


def run_subdivision(rep, ip, tier):
    """Evaluates the number of points along every direction of every shape, extrusion and builder item, and how the
    fractions of that direction are spaced, for symbolic resolutions of every kind (positive, non-positive, missing, explicit)."""
    rep.rule("a resolution n gives n+1 points, a missing one or one below 1 gives 2, an array its own entries")
    rep.rule("constant layers are evenly spaced, log ones grow and log_r ones shrink from the first to the last; explicit ones are sorted")
    rep.rule("each direction and item uses its own resolution and method")
    n = shapes(rep, ip) + extrude(rep, ip, tier) + items(rep, ip)
    if not n:
        raise Broken("no subdivision could be followed")
    rep.note = f"{n} scenes"


def shapes(rep, ip):
    n = 0
    ms = ("constant", "log", "log_r")
    for shape in SHAPES:
        for i, (kind, low) in enumerate((("int", False), ("int", "zero"), ("int", "negative"), ("none", False), ("array", False))):
            methods = [ms[(i + k) % 3] if kind == "int" else None for k in range(3)]
            sc, st, r = run_scene(rep, ip, shape, methods, kind, None, low)
            label, key = st.label(shape, methods, low), shape.name
            if r.final is None:
                rep.skip(f"{key}:count")
                continue
            cases = with_arrays(st.cases(low), kind)
            if shape.kind == "fan":
                n += fan(rep, sc, st, r, cases, kind, low, label, key)
                continue
            bs = blocks_of(sc, r)
            if bs is None or len(bs) != len(shape.blocks):
                rep.skip(f"{key}:count")
                continue
            n += 1
            for (dims, coords), (names, _) in zip(bs, shape.blocks):
                for d, nm in zip(dims, names):
                    if nm is not None:
                        count(rep, sc.A, cases, d, wanted(kind, st.want[nm][0], low), key, label, f"direction {nm}")
    return n


def fan(rep, sc, st, r, cases, kind, low, label, key):
    from .shapes import fan_points
    got = fan_points(sc, r)
    if got is None:
        rep.skip(f"{key}:count")
        return 0
    count(rep, sc.A, cases, got[2], wanted(kind, st.want["t"][0], low), key, label, "the arc")
    return 1


def extrude(rep, ip, tier):
    n = 0
    for label0, key, fill, call, along, base in extrusions(tier):
        for kind, method in options(tier):
            for low in ((False, "zero", "negative") if kind == "int" and method is None else (False,)):
                what = f"{low} resolution" if low else f"{kind} resolution"
                label = f"{label0}, {what}, method {method or 'default'}"
                sc, r = extruded(rep, ip, fill, call, kind, method, low)
                got = grid_of(sc, r, along, base)
                if got is None:
                    undecided(rep, sc, r.env.get("m"), key, label)
                    continue
                n += 1
                cases = with_arrays(case_of(kind, low), kind)
                d = got[0]
                count(rep, sc.A, cases, (d,), wanted(kind, "n", low), key, label, "the extrusion")
    return n


# ---------------------------------------------------------------- items of builders
def unshift(e):
    """*e* with its layers counted from the first one, also where the shared layer is dropped."""
    seen = {}

    def go(x):
        if isinstance(x, _Wrap) and x.tag in ("+1", "head"):
            return seen.setdefault(x.of, Atom(x.of.len + axlen(()), x.of.name + "*"))
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(e)


def builders():
    for ax in (0, 1, 2):
        yield "MeshStack3D", "structured", ax
        yield "MeshStack2D", "line", ax
        yield "MeshExtrude", "structured", ax
    yield "MeshStack3D", "unstructured", 2
    yield "MeshExtrude", "unstructured", 2


def items(rep, ip):
    n = 0
    ms = ("constant", "log", "log_r", None)
    for cls, base, ax in builders():
        for kind in ("int", "zero", "negative", "none", "array"):
            for i in range(4 if kind == "int" else 1):
                n += item(rep, ip, cls, base, ax, kind, [ms[i], ms[(i + 1) % 4]] if kind == "int" else [None, None])
    return n


def item(rep, ip, cls, base, ax, kind, methods):
    sc = stack_scene(ip, base, ax, lambda sc: (sc.number("s0", "s1", "s2"), sc.vector("v", "w")))
    low = kind if kind in ("zero", "negative") else False
    if kind == "array":
        sc.resolution("r1", "array"), sc.resolution("r2", "array")
    if low:
        sc.A.positive -= {mk("sym", "r1"), mk("sym", "r2")}
    vals, least, signs = {}, {}, {}
    for i in (1, 2):
        s = mk("sym", f"r{i}")
        if kind == "int" or low:
            bound(vals, signs, least, s, f"r{i}", low)
        signs[("k", mk("sym", f"s{i}"))] = "+"
    cases = with_arrays(Cases(signs, vals, least), kind)
    if low:
        sc.cases = cases
    code = f"b = {cls}(mesh{'' if cls == 'MeshExtrude' else f', axis={ax}'})\n" + ("" if cls == "MeshExtrude" else "b.add(s0)\n")
    for i, m in enumerate(methods, 1):
        what = f"s{i}" if cls != "MeshExtrude" else "vw"[i - 1]
        code += f"b.add({what}" + (f", resolution=r{i}" if kind != "none" else "") + (f", method={m!r}" if m else "") + ")\n"
    r = sc.run(code + "m = b.generate_mesh()\n")
    rep.saw(r)
    key = f"{cls}:{base}"
    label = f"{cls}({base}, axis {ax}), {kind} resolution, methods {methods[0]}/{methods[1]}"
    got = layers_of(sc, r, 2, ax) if r.final is not None else None
    if got is None:
        undecided(rep, sc, r.env.get("m"), f"{key}:items", label)
        return 0
    total = NF.of(0)
    for i, (along, es, _) in enumerate(got, 1):
        spacing(rep, sc, cases, es, kind, f"r{i}", methods[i - 1], base, ax, f"{label}, item {i}", key)
        try:
            total = total + size(sc.A, cases, along[:1])
        except (Unknown, Mismatch):
            total = None
            break
    if total is None:
        rep.skip(f"{key}:count")
        return 1
    # structured layers are shared between items
    want = NF.of(0) if base == "unstructured" else NF.of(-1)
    for i in (1, 2):
        want = want + wanted("int" if low else kind, f"r{i}", low)
    rep.check(total == want, f"{key}:count", label, f"{label}: the items have {total} layers of points instead of {want}")
    return 1


def spacing(rep, sc, cases, es, kind, name, method, base, ax, label, key):
    """The layers of the item use the item's own method."""
    c = CURV[method] if kind != "array" else name
    v = Fractions(sc.A, cases, {"r1", "r2"})
    seen = set()
    try:
        for e in es:
            for nf in v.outcomes(unshift(e)):
                seen |= {p for a in nf.atoms() for p in fractions_in(a)}
                seen |= {("?",) for a in nf.atoms() if a[0] == "odd"}
    except (Unknown, Mismatch):
        rep.skip(f"{key}:method")
        return
    got = {(p[2], p[3]) for p in seen if p[0] == "P"}
    ok = got == {(c, True)}
    say = ", ".join(SPACING.get(x, f"given by {x}") + ("" if o else " unsorted") for x, o in got) or "something else"
    rep.check(ok, f"{key}:method", label, f"{label}: layers are {say} instead of {SPACING.get(c, 'given by ' + c)}")
    if ok:
        d = {p[1] for p in seen if p[0] == "P"}
        try:
            sizes = {size(sc.A, cases, (x,)) for x in d}
        except (Unknown, Mismatch):
            rep.skip(f"{key}:layers")
            return
        low = kind in ("zero", "negative")
        want = wanted("int" if low else kind, name, low)
        rep.check(sizes == {want}, f"{key}:layers", label, f"{label}: {', '.join(map(str, sizes))} points across the item instead of {want}")


def fractions_in(a):
    stack = [a]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple) and x and x[0] == "P" and len(x) == 4:
            yield x
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)
        elif isinstance(x, NF):
            stack.extend(x.m)
