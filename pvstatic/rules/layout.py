"""Where data arrays end up on extruded, stacked and merged meshes."""
from __future__ import annotations

from ..arrays import Mismatch, Unknown, match, subst
from ..report import Broken
from ..scene import CX, CY, CZ, NL, Scene, place
from ..terms import const, mk, show

PLANES = ("xy", "yx", "xz", "zx", "yz", "zy")


def undecided(rep, sc, t, key, label):
    """Nothing is known about *t*: certain shape errors are violations, the rest stays undecided."""
    w = sc.clash(t) if t is not None else None
    if w:
        rep.bad(f"{key}:shape", label, f"{label}: arrays do not fit together ({w})")
    else:
        rep.skip(key)


def follow(rep, sc, mesh, digits, which, label, key):
    """Every array of the base lands on *mesh* with the row of the base entity it stands on."""
    es = sc.entries(mesh, which)
    if not es and sc.others(mesh, which):
        rep.skip(f"{key}:{which}")
        return
    if not es:
        rep.bad(f"{key}:{which}:lost", label, f"{label}: {which} of the base is not carried over")
        return
    for k, v in es:
        a = sc.A.arr(v)
        if a is None or digits is None:
            undecided(rep, sc, v, f"{key}:{which}", label)
            continue
        if which == "cell_data" and a.ndim > 1 and any(x in sc.A.squeezed for x in sub(v)):
            rep.bad(f"{key}:{which}:components", label, f"{label}: {which} rows lose their components in a mesh of one cell (all lengths of one are dropped)")
            continue
        where, base = digits
        try:
            elem, mb = place(a, where)
        except Mismatch:
            if not certain(sc, a.axes[0], where):
                rep.skip(f"{key}:{which}")
                continue
            rep.bad(f"{key}:{which}:length", label, f"{label}: {which} rows do not cover the mesh ({[str(x) for x in a.lens()]})")
            continue
        want = subst(("radix", base), mb)
        ok = (elem[0] == "at" and elem[2][0] == want
              and (len(elem[2]) == 1 or elem[2][1] == ("radix", (sc.comp,)) and a.axes[1:] == ((sc.comp,),)))
        rep.check(ok, f"{key}:{which}:order", label,
                  f"{label}: {which} rows are not those of the base entity below (row {_digits(elem)}, mesh order {_names(where)})")


def certain(sc, *axes):
    """The lengths of the axes are known in terms of the sizes of the scene."""
    return all(sc.A.clean(axl(x)) for x in axes)


def _digits(e):
    return "/".join(_names(x[1]) for x in e[2] if x[0] == "radix") if e and e[0] == "at" else str(e[0])


def _names(ds):
    return ",".join(getattr(d, "name", str(d)) for d in ds)


def volumes(ip, rep):
    """Extruding a surface (structured, three orientations; unstructured)."""
    n = 0
    for ndim in (1, 2):
        for res in ("int", "array"):
            for ax in (0, 1, 2):
                sc = Scene(ip, ndim)
                sc.structured("a", ax), sc.structured("b", ax)
                sc.resolution("resolution", res)
                r = sc.run("m = Volume(a, b, resolution)")
                rep.saw(r)
                label = f"Volume(structured, axis {ax}, {res} resolution, {ndim}-D data)"
                key = f"Volume:{ax}"
                g = sc.A.grid(r.env["m"]) if r.final is not None else None
                if g is None:
                    undecided(rep, sc, r.env.get("m"), key, label)
                    continue
                n += 1
                base = sc.A.grid(mk("sym", "a"))
                follow(rep, sc, g.term, (g.point_digits(), base.point_digits()), "point_data", label, key)
                c = g.cell_digits()
                follow(rep, sc, g.term, None if c is None else (c, base.cell_digits()), "cell_data", label, key)
            sc = Scene(ip, ndim)
            sc.unstructured("a"), sc.unstructured("b")
            sc.resolution("resolution", res)
            r = sc.run("m = Volume(a, b, resolution)")
            rep.saw(r)
            label, key = f"Volume(unstructured, {res} resolution, {ndim}-D data)", "Volume:u"
            m = ctor(sc, r.env.get("m")) if r.final is not None else None
            if m is None:
                rep.skip(key)
                continue
            pts, cells = sc.A.arr(m.args[1][2]), sc.A.arr(m.args[1][1])
            if pts is None or cells is None:
                undecided(rep, sc, m, key, label)
                continue
            n += 1
            follow(rep, sc, m, (pts.axes[0], (sc.upts,)), "point_data", label, key)
            follow(rep, sc, m, (cells.axes[0], (sc.ucells,)), "cell_data", label, key)
    return n


def ctor(sc, t):
    t = sc.A.pick(t)
    from ..terms import is_glob
    return t if t.op == "call" and is_glob(t.args[0], "pyvista.UnstructuredGrid") and len(t.args[1]) == 3 else None


def surfaces(ip, rep):
    n = 0
    for ndim in (1, 2):
        for res in ("int", "array"):
            for plane in PLANES:
                sc = Scene(ip, ndim)
                sc.line("a"), sc.line("b")
                sc.resolution("resolution", res)
                r = sc.run(f"m = StructuredSurface(a, b, {plane!r}, resolution)")
                rep.saw(r)
                label, key = f"StructuredSurface({plane}, {res} resolution, {ndim}-D data)", f"StructuredSurface:{plane}"
                g = sc.A.grid(r.env["m"]) if r.final is not None else None
                if g is None:
                    undecided(rep, sc, r.env.get("m"), key, label)
                    continue
                n += 1
                follow(rep, sc, g.term, (g.point_digits(), (sc.line_pts,)), "point_data", label, key)
                follow(rep, sc, g.term, (g.cell_digits(), (sc.line_pts.cell,)), "cell_data", label, key)
    return n


def run_extrude(rep, ip, tier):
    """Follows every data array of the base through reshape/repeat/tile/transpose into the extruded mesh in the
    index-function domain and compares the row it takes at each point/cell with the base entity below."""
    rep.rule("the row of an extruded data array at a point/cell is the row of the base point/cell it was extruded from")
    a, b = volumes(ip, rep), surfaces(ip, rep)
    rep.note = f"{a} volume and {b} surface scenes"


# ---------------------------------------------------------------- layers, columns and items
def parts_of(elem, digit, n_parts):
    """[(digits of the part along the axis, element)] of a concatenation along *digit*."""
    ps = joined(elem, digit)
    return None if ps is None else [(ax, x) for _, x, ax in ps]


def affine(sc, e, digit):
    """Offset of ``index along digit + offset`` as a polynomial; Mismatch if *e* is something else."""
    coef, off = lin(sc, e, digit)
    if coef != 1:
        raise Mismatch()
    return off


def lin(sc, e, digit):
    from ..arrays import Poly
    if e[0] == "idx":
        if e[1] == digit:
            return 1, Poly({})
        if e[1] == ():
            return 0, Poly({})
        raise Mismatch()
    if e[0] == "k":
        return 0, sc.A.poly(e[1])
    if e[0] in ("+", "-", "add", "subtract"):
        a, x = lin(sc, e[1], digit)
        b, y = lin(sc, e[2], digit)
        return (a + b, x + y) if e[0] in ("+", "add") else (a - b, x - y)
    if e[0] in ("//", "/", "floor_divide", "*", "multiply"):
        a, x = lin(sc, e[1], digit)
        b, y = lin(sc, e[2], digit)
        if e[0] in ("*", "multiply"):
            if a == b == 0:
                return 0, x * y
            if b == 0 and y.const is not None:
                return a * y.const, x * y
            if a == 0 and x.const is not None:
                return b * x.const, x * y
        elif a == b == 0 and x.div(y) is not None:
            return 0, x.div(y)
        raise Unknown()
    if e[0] == "neg":
        a, x = lin(sc, e[1], digit)
        return -a, -x
    raise Unknown()


def bookkeeping(rep, sc, arrs, slots, label, key, item):
    """*slots*: per item (all cell digits, layer digit tuple, base digits); arrs[name] -> element per item."""
    from ..arrays import Poly, axlen
    done = Poly({})
    for i, (whole, layer, base) in enumerate(slots):
        for name in ("LayerId", "ColumnId", item):
            e = arrs[name][i] if arrs.get(name) is not None else None
            if e is None:
                rep.skip(f"{key}:{name}")
                continue
            try:
                if name == "LayerId":
                    want = "counts the layers from the first item on"
                    ok = affine(sc, e, layer) == done
                elif name == "ColumnId":
                    want = "is the number of the base cell below"
                    ok = column(e, base)
                else:
                    want = "is the number of the item"
                    c, off = lin(sc, e, ("none",))
                    ok = c == 0 and off == Poly.of(i)
            except Mismatch:
                ok = False
            except Unknown:
                rep.skip(f"{key}:{name}")
                continue
            rep.check(ok, f"{key}:{name}", label, f"{label}: in item {i}, {name} is not what it should be: it {want}")
        done = done + axlen(layer)


def column(e, base):
    if e[0] == "idx":
        return e[1] == base
    if e[0] in ("k", "+", "-", "*", "//", "%"):
        raise Unknown()
    return False


def structured_slots(sc, g, axis):
    """Slots of a merged structured grid along *axis* or None."""
    cd = g.cell_dims()
    if cd is None or len(cd[axis]) != 1:
        return None
    d = cd[axis][0]
    base = sum((cd[q] for q in (2, 1, 0) if q != axis), ())
    return d, base, g.cell_digits()


def check_stack(rep, sc, mesh, axis, item, label, key):
    g = sc.A.grid(mesh)
    if g is None:
        undecided(rep, sc, mesh, key, label)
        return 0
    s = structured_slots(sc, g, axis)
    if s is None:
        rep.skip(key)
        return 0
    d, base, where = s
    arrs, parts = {}, None
    for name in ("LayerId", "ColumnId", item):
        t = sc.item(g.term, "cell_data", name)
        a = sc.A.arr(t)
        if a is None:
            undecided(rep, sc, t, f"{key}:{name}", label)
            continue
        try:
            com, ma, mb = match(a.axes[0], where)
        except Mismatch:
            if not certain(sc, a.axes[0], where):
                rep.skip(f"{key}:{name}")
                continue
            rep.bad(f"{key}:{name}", label, f"{label}: {name} does not cover the cells of the mesh")
            continue
        # express in the grid's own digits
        back = {}
        for x, ys in mb.items():
            if len(ys) == 1:
                back[ys[0]] = (x,)
        e = subst(subst(a.elem, ma), back)
        p = parts_of(e, d, 2)
        if p is None:
            # the same on all items
            arrs[name] = ("whole", e)
        else:
            parts = parts or [q[0] for q in p]
            if [axl(q[0]) for q in p] != [axl(q) for q in parts]:
                rep.bad(f"{key}:{name}", label, f"{label}: {name} is joined at another layer than the other arrays")
                continue
            arrs[name] = ("parts", p)
    if parts is None:
        rep.skip(key)
        return 0
    slots = [(None, q, base) for q in parts]
    out = {}
    for name, (kind, v) in arrs.items():
        if kind == "whole":
            out[name] = [v] * len(parts)
        else:
            out[name] = [subst(x, {b: (a,) for a, b in zip(q, ax)}) for q, (ax, x) in zip(parts, v)]
    bookkeeping(rep, sc, out, slots, label, key, item)
    return 1


def axl(ax):
    from ..arrays import axlen
    return axlen(ax)


def run_layers(rep, ip, tier):
    """Builds three-item stacks and extrusions for every axis and base type, reads the bookkeeping arrays of the final
    mesh in the index-function domain and compares them with the mesh's own cell order."""
    rep.rule("LayerId is the position of the cell along the extrusion, counted over all items")
    rep.rule("ColumnId is the number of the base cell the cell stands on")
    rep.rule("StackItem/ExtrudeItem is the number of the item")
    n = 0
    for ax in (0, 1, 2):
        sc = Scene(ip)
        sc.structured("mesh", ax)
        sc.number("s0", "s1", "s2", "s3")
        for q in ("r1", "r2", "r3"):
            sc.resolution(q, "int")
        r = sc.run(f"b = MeshStack3D(mesh, axis={ax})\nb.add(s0)\nb.add(s1, r1)\nb.add(s2, r2)\nb.add(s3, r3)\nm = b.generate_mesh()\n")
        rep.saw(r)
        if r.final is not None:
            n += check_stack(rep, sc, r.env["m"], ax, "StackItem", f"MeshStack3D(structured, axis {ax})", f"MeshStack3D:{ax}")
        sc = Scene(ip)
        sc.structured("mesh", ax)
        sc.vector("v")
        for q in ("r1", "r2", "r3"):
            sc.resolution(q, "int")
        r = sc.run("b = MeshExtrude(mesh)\nb.add(v, r1)\nb.add(v, r2)\nb.add(v, r3)\nm = b.generate_mesh()\n")
        rep.saw(r)
        if r.final is not None:
            n += check_stack(rep, sc, r.env["m"], ax, "ExtrudeItem", f"MeshExtrude(structured, axis {ax})", f"MeshExtrude:{ax}")
        sc = Scene(ip)
        sc.line("mesh")
        sc.number("s0", "s1", "s2", "s3")
        for q in ("r1", "r2", "r3"):
            sc.resolution(q, "int")
        r = sc.run(f"b = MeshStack2D(mesh, axis={ax})\nb.add(s0)\nb.add(s1, r1)\nb.add(s2, r2)\nb.add(s3, r3)\nm = b.generate_mesh()\n")
        rep.saw(r)
        if r.final is not None:
            n += check_stack(rep, sc, r.env["m"], ax, "StackItem", f"MeshStack2D(axis {ax})", f"MeshStack2D:{ax}")
    for name, pre, args in (("MeshStack3D", "b.add(s0)\n", "s{i}, r{i}"), ("MeshExtrude", "", "v, r{i}")):
        sc = Scene(ip)
        sc.unstructured("mesh")
        sc.number("s0", "s1", "s2")
        sc.vector("v")
        for q in ("r1", "r2", "r3"):
            sc.resolution(q, "int")
        r = sc.run(f"b = {name}(mesh)\n{pre}" + "".join(f"b.add({args.format(i=i)})\n" for i in (1, 2, 3)) + "m = b.generate_mesh()\n")
        rep.saw(r)
        if r.final is not None:
            n += check_unstructured(rep, sc, r, "StackItem" if name == "MeshStack3D" else "ExtrudeItem",
                                    f"{name}(unstructured)", f"{name}:u")
    if not n:
        raise Broken("no stack or extrusion could be followed")
    rep.note = f"{n} scenes"


def check_unstructured(rep, sc, r, item, label, key):
    from ..terms import is_glob
    parts = None
    for ev in r.events:
        if ev.kind == "call" and ev.term.op == "call" and is_glob(ev.term.args[0], "pyvista.merge") and ev.term.args[1]:
            t = ev.term.args[1][0]
            lit = sc.ip.literal(t)
            if lit is None and t.op in ("list", "tuple"):
                lit = t.args
            if lit and not any(x.op == "star" for x in lit):
                parts = [ctor(sc, x) for x in lit]
    if not parts or any(p is None for p in parts) or len(parts) != 3:
        rep.skip(key)
        return 0
    slots, arrs = [], {}
    for p in parts:
        ct = sc.A.arr(p.args[1][1])
        if ct is None or ct.ndim != 1 or len(ct.axes[0]) != 2 or ct.axes[0][1].len != sc.ucells.len:
            rep.skip(key)
            return 0
        slots.append((ct.axes[0], ct.axes[0][:1], ct.axes[0][1:]))
        for name in ("LayerId", "ColumnId", item):
            a = sc.A.arr(sc.item(p, "cell_data", name))
            e = None
            if a is not None:
                try:
                    com, ma, mb = match(ct.axes[0], a.axes[0])
                    e = subst(a.elem, mb)
                except Mismatch:
                    if certain(sc, ct.axes[0], a.axes[0]):
                        rep.bad(f"{key}:{name}", label, f"{label}: {name} does not cover the cells of the mesh")
            arrs.setdefault(name, []).append(e)
    bookkeeping(rep, sc, arrs, slots, label, key, item)
    return 1


# ---------------------------------------------------------------- merging structured grids
NAMES = ("a", "b", "c")
SAME = {"numpy.allclose", "numpy.array_equal", "numpy.array_equiv", "numpy.isclose", "numpy.equal"}


def joined(e, digit):
    """Flat [(length, element, digits)] of nested concatenations along *digit*."""
    if e[0] == "cat" and e[1] is digit:
        out = []
        for ax, x in e[2]:
            if len(ax) == 1 and x[0] == "cat" and x[1] is ax[0]:
                out += joined(x, ax[0])
            else:
                out.append((axl(ax), x, ax))
        return out
    return None


def position(r):
    """(shift, digits) of a radix index."""
    from ..arrays import _Wrap
    if r[0] != "radix":
        raise Unknown()
    ds, shift = [], 0
    for d in r[1]:
        while isinstance(d, _Wrap):
            if len(r[1]) > 1:
                raise Unknown()
            if d.tag.startswith("+"):
                shift += int(d.tag[1:])
            elif d.tag != "head":
                raise Mismatch()
            d = d.of
        ds.append(d)
    return shift, tuple(ds)


def is_same_test(t):
    """The two arrays a condition compares, if it is an equality test of arrays."""
    from ..terms import is_glob
    while t.op in ("truth", "not"):
        t = t.args[0]
    if t.op == "call" and (t.args[0].op == "attr" and t.args[0].args[1] == "all" or any(is_glob(t.args[0], n) for n in ("numpy.all", "builtins.all"))):
        t = t.args[0].args[0] if t.args[0].op == "attr" else (t.args[1] or [t])[0]
    if t.op == "cmp" and t.args[0] == "==":
        return t.args[1:3]
    if t.op == "call" and any(is_glob(t.args[0], n) for n in SAME) and len(t.args[1]) >= 2:
        return t.args[1][:2]
    return None


def merges(ip, rep):
    from ..arrays import Poly
    n = 0
    W, V = mk("sym", "n_w"), mk("sym", "n_v")
    for ax in (0, 1, 2):
        for flat in (None, 0, 1, 2):
            if flat == ax:
                continue
            for ndim in (1, 2):
                for parts in (("a", "b"), ("a", "b", "c")):
                    sc = Scene(ip, ndim)
                    sc.A.positive |= {W, V}
                    lens = {}
                    for name, own in zip(parts, ((CX, CY, CZ)[ax], W, V)):
                        c = [CX, CY, CZ]
                        c[ax] = own
                        lens[name] = Poly.of(own)
                        sc.structured(name, flat, c)
                        sc.data("q" + name, name)
                    code = "".join(f"{p}.cell_data['q'] = q{p}\n" for p in parts)
                    r = sc.run(code + f"m = merge([{', '.join(parts)}], axis={ax})\nq = m.cell_data['q']")
                    rep.saw(r)
                    shape = "volumes" if flat is None else f"surfaces flat along {flat}"
                    label, key = f"merge({len(parts)} {shape}, axis {ax}, {ndim}-D data)", f"merge:{ax}"
                    g = sc.A.grid(r.env["m"]) if r.final is not None else None
                    if g is None:
                        undecided(rep, sc, r.env.get("m"), key, label)
                        continue
                    n += 1
                    merged_points(rep, sc, g, ax, flat, parts, lens, label, key)
                    merged_cells(rep, sc, g, r.env["q"], ax, parts, lens, label, key)
    return n


def merged_points(rep, sc, g, ax, flat, parts, lens, label, key):
    from ..arrays import ONE, Poly
    if len(g.dims[ax]) != 1:
        rep.skip(f"{key}:points")
        return
    d = g.dims[ax][0]
    for q, e in zip("xyz", g.coords):
        ps = joined(e, d)
        if ps is None:
            rep.skip(f"{key}:points")
            continue
        off, at = {}, Poly({})
        for p in parts:
            off[p] = at
            at = at + lens[p]
        pos, ok, why = Poly({}), True, ""
        try:
            for size, x, dg in ps:
                if x[0] != "at":
                    raise Unknown()
                src = [p for p in parts if x[1] == mk("attr", mk("sym", p), q)]
                if not src:
                    ok, why = False, f"{q} is taken from something else"
                    break
                for i in range(3):
                    shift, ds = position(x[2][i])
                    if i == ax:
                        if ds != dg or off[src[0]] + Poly.of(shift) != pos:
                            ok, why = False, f"the points of grid {src[0]} are not where its neighbour ends"
                    elif ds != g.dims[i] or shift:
                        ok, why = False, "points are not in the order of the grid they come from"
                pos = pos + size
            if ok and pos != at + ONE:
                ok, why = False, "the merged grid does not have the points of all grids"
        except Mismatch:
            ok, why = False, "points are not in the order of the grid they come from"
        except Unknown:
            rep.skip(f"{key}:points")
            continue
        rep.check(ok, f"{key}:points", label, f"{label}: {why}")


def merged_cells(rep, sc, g, q, ax, parts, lens, label, key):
    a = sc.A.arr(q)
    c = g.cell_dims()
    if a is None or c is None:
        undecided(rep, sc, q, f"{key}:cells", label)
        return
    try:
        com, ma, mb = match(a.axes[0], g.cell_digits())
        back = {ys[0]: (x,) for x, ys in mb.items() if len(ys) == 1}
        e = subst(subst(a.elem, ma), back)
        ps = joined(e, c[ax][0])
        if ps is None:
            rep.skip(f"{key}:cells")
            return
        ok = [s for s, _, _ in ps] == [lens[p] for p in parts]
        for p, (size, x, dg) in zip(parts, ps):
            want = sum((dg if k == ax else c[k] for k in (2, 1, 0)), ())
            ok = ok and x[0] == "at" and x[1] == mk("sym", "q" + p) and x[2][0] == ("radix", want)
            ok = ok and (sc.ndim == 1 or x[2][1] == ("radix", (sc.comp,)) and a.axes[1:] == ((sc.comp,),))
    except Mismatch:
        if not certain(sc, a.axes[0], g.cell_digits()):
            rep.skip(f"{key}:cells")
            return
        ok = False
    except Unknown:
        rep.skip(f"{key}:cells")
        return
    rep.check(ok, f"{key}:cells", label, f"{label}: cell data is not that of the cell of the grid it comes from")


def rejects(ip, rep):
    """Grids that do not touch (in any one coordinate) are refused."""
    from ..arrays import Fixed, Poly
    n = 0
    W = mk("sym", "n_w")
    for ax in (0, 1, 2):
        for off in (None, "x", "y", "z"):
            sc = Scene(ip)
            sc.A.positive |= {W}
            for name, own in (("a", (CX, CY, CZ)[ax]), ("b", W)):
                c = [CX, CY, CZ]
                c[ax] = own
                sc.structured(name, None, c)
            base, unclear, tested = sc.assume, [], set()

            def assume(c, sc=sc, base=base, off=off, unclear=unclear, ax=ax, tested=tested):
                if c.op == "not":
                    v = assume(c.args[0])
                    return None if v is None else not v
                if not all(mentions(c, n) for n in ("a", "b")):
                    return base(c)
                pair = is_same_test(c)
                coord = None if pair is None else interface(sc, pair, ax)
                if coord is None:
                    unclear.append(c)
                    return None
                tested.add(coord)
                return coord != off
            sc.assume = assume
            r = sc.run(f"m = merge([a, b], axis={ax})")
            rep.saw(r)
            label, key = f"merge(axis {ax})", f"merge:{ax}:seam"
            if off is None:
                if r.final is None:
                    rep.bad(key, label, f"{label}: grids that touch are refused")
                elif not unclear:
                    rep.check(True, key, label, "")
                continue
            if unclear:
                rep.skip(key)
                continue
            n += 1
            rep.check(r.final is None, f"{key}:{off}", label,
                      f"{label}: grids whose adjoining faces differ in {off} are merged all the same")
    return n


def sub(t):
    from ..terms import subterms
    return subterms(t)


REDUCE = {"max", "min", "mean", "sum", "ptp", "amax", "amin", "median"}


def mentions(c, name):
    """The condition looks at where the points of grid *name* are."""
    return any(x.op == "attr" and x.args[1] in ("x", "y", "z", "points", "bounds", "center", "extent") and any(
        y.op == "sym" and y.args[0] == name for y in sub(x)) for x in sub(c))


def reduced(t):
    """A single number or the box of one grid: equal for many different interfaces."""
    from ..terms import is_glob
    if t.op == "index" and reduced(t.args[0]):
        return True
    if t.op == "attr" and t.args[1] in ("bounds", "center", "length", "extent"):
        return True
    if t.op != "call" or any(k == "axis" for k, _ in t.args[2]):
        return False
    f = t.args[0]
    if f.op == "attr" and f.args[1] in REDUCE:
        return not t.args[1]
    return f.op == "glob" and f.args[0] in {"numpy." + n for n in REDUCE} and len(t.args[1]) == 1


def interface(sc, pair, ax):
    """Coordinate compared between the last plane of a and the first plane of b; '' for another comparison; None: unclear."""
    got = {}
    if all(reduced(t) for t in pair):
        one = [{n for n in ("a", "b") if mentions(t, n)} for t in pair]
        return "" if sorted(map(sorted, one)) == [["a"], ["b"]] else None
    for t in pair:
        a = sc.A.arr(t)
        if a is None or a.elem[0] != "at" or len(a.elem[2]) != 3:
            return None
        src = a.elem[1]
        if not (hasattr(src, "op") and src.op == "attr" and src.args[0].op == "sym" and src.args[1] in ("x", "y", "z")):
            return None
        got[src.args[0].args[0]] = (src.args[1], a.elem[2][ax])
    if set(got) != {"a", "b"} or got["a"][0] != got["b"][0]:
        return ""
    if at_end(sc, got["a"][1], "a", ax) and at_start(got["b"][1]):
        return got["a"][0]
    return ""


def at_end(sc, i, name, ax):
    from ..arrays import Fixed
    if i[0] == "radix" and len(i[1]) == 1 and isinstance(i[1][0], Fixed):
        w = i[1][0].what
        if w == "-1":
            return True
        if hasattr(w, "op"):
            g = sc.A.grid(mk("sym", name))
            return sc.A.poly(w) == g.dims[ax][0].len - axl(())
    return False


def at_start(i):
    return i == ("int", 0)


def run_merge(rep, ip, tier):
    """Merges two and three symbolic structured grids along every axis and follows coordinates and cell data into the
    merged grid in the index-function domain; then merges grids that disagree in one coordinate of the interface."""
    rep.rule("each grid keeps its points and cells, in order, at its place; the shared face is there once")
    rep.rule("cell data is that of the cell of the grid it comes from")
    rep.rule("grids whose interfaces differ in any coordinate are refused")
    n, k = merges(ip, rep), rejects(ip, rep)
    if not n:
        raise Broken("no merge could be followed")
    rep.note = f"{n} merges followed, {k} refusals decided"
