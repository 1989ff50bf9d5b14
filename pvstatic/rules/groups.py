"""Cell groups: which name every cell gets, for every kind of selector."""
from __future__ import annotations

import itertools

from ..fold import Fails, Fold, Unknown
from ..terms import Term, is_glob, subterms

BASE = {"A": 7, "B": 0, "C": 3}
# every situation of a cell: its code in the base mesh (9 has no name), what two masks and an index list say about it
CELLS = list(itertools.product((7, 0, 3, 9), (False, True), (False, True)))
N = len(CELLS)
CODES = [c[0] for c in CELLS]
M1 = [c[1] for c in CELLS]
M2 = [c[2] for c in CELLS]
IDX = [i for i, m in enumerate(M1) if m]
NAMEOF = {v: k for k, v in BASE.items()}
DUMMY = ("merge", "get_dimension", "remap_categorical_data", "split_lines",
         "generate_volume_from_two_surfaces", "generate_surface_from_two_lines")
CLEAN = "_clean"


def names(codes):
    return [NAMEOF.get(c) for c in codes]


def base_in(group, invert=False):
    return [(n == group) is not invert for n in names(CODES)]


# source of the selector -> the entries it stands for: (name, which cells)
SPECS = {
    "None": [],
    "'X'": [("X", [True] * N)],
    "{'X': m1}": [("X", M1)],
    "{'X': m1, 'Y': m2}": [("X", M1), ("Y", M2)],
    "{'Y': m2, 'X': m1}": [("Y", M2), ("X", M1)],
    "{'~X': m1}": [("X", [not x for x in M1])],
    "{'X': ind}": [("X", M1)],
    "{'~X': ind}": [("X", [not x for x in M1])],
    "{'X': fun}": [("X", M2)],
    "{'X': 'A'}": [("X", base_in("A"))],
    "{'X': 'C'}": [("X", base_in("C"))],
    "{'X': '~A'}": [("X", base_in("A", True))],
    "{'~X': 'A'}": [("X", base_in("A", True))],
    "{'X': ['C']}": [("X", base_in("C"))],
    "{'X': ('A', 'C')}": [("X", [a or b for a, b in zip(base_in("A"), base_in("C"))])],
    "{'X': ['~B']}": [("X", base_in("B", True))],
    "{'A': m1}": [("A", M1)],
    "{'B': m2}": [("B", M2)],
    "{'X': 'B', 'Y': m1}": [("X", base_in("B")), ("Y", M1)],
}


def expected(entries, ignore, default, has_base):
    out = []
    for i, code in enumerate(CODES):
        n = NAMEOF.get(code) if has_base else None
        if n in ignore:
            n = None
        for name, mask in entries:
            if mask[i]:
                n = name
        out.append(n if n is not None else default)
    return out


def part_of_line(t):
    """A line made by split_lines, or a copy of it."""
    while t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "copy":
        t = t.args[0].args[0]
    return t.op == "index" and t.args[0].op == "call" and is_glob(t.args[0].args[0], "pvgridder.split_lines")


class GroupLeaf:
    def __init__(self, ip, has_base=True):
        self.ip, self.has_base = ip, has_base

    def __call__(self, t):
        if t.op == "cmp" and t.args[0] in ("in", "not in") and t.args[1].op == "const" and t.args[1].args[1] == "CellGroup" \
                and t.args[2].op == "attr" and t.args[2].args[1] in ("cell_data", "user_dict"):
            return self.has_base is (t.args[0] == "in")
        if t.op == "index" and t.args[1].op == "const" and t.args[1].args[1] == "CellGroup" and t.args[0].op == "attr":
            if not self.has_base:
                raise Fails("KeyError")
            if t.args[0].args[1] == "cell_data":
                return list(CODES)
            if t.args[0].args[1] == "user_dict":
                return dict(BASE)
        if t.op == "isinst" and part_of_line(t.args[0]):
            return bool({"PolyData", "DataSet"} & set(t.args[1]))
        if t.op == "cmp" and t.args[0] == "is" and t.args[2].op == "const" and part_of_line(t.args[1]):
            return False
        if t.op == "attr" and t.args[1] in ("n_cells", "number_of_cells"):
            return N
        if t.op == "sym":
            return {"m1": M1, "m2": M2, "ind": IDX}.get(t.args[0]) and list({"m1": M1, "m2": M2, "ind": IDX}[t.args[0]])
        if t.op == "call" and t.args[0].op == "sym" and t.args[0].args[0] == "fun":
            return list(M2)
        return None


def oracle(ip, leaf):
    def assume(c, *a):
        try:
            return Fold(ip, leaf).truth(c)
        except (Unknown, Fails):
            return None
    return assume


PARAMS = {"m1": {"types": ["ndarray"]}, "m2": {"types": ["ndarray"]}, "ind": {"types": ["ndarray"]}, "fun": {"types": ["callable"]},
          "mesh": {"types": ["UnstructuredGrid"]}, "line": {"types": ["PolyData"]}, "v": {}}
BUILDERS = {
    "MeshExtrude": ("MeshExtrude(mesh, default_group={d}, ignore_groups={i})", ".add(v, 1, group={g})", 0),
    "MeshStack3D": ("MeshStack3D(mesh, default_group={d}, ignore_groups={i}).add(0.0)", ".add(1.0, 1, group={g})", 0),
    "MeshStack2D": ("MeshStack2D(line, default_group={d}, ignore_groups={i}).add(0.0)", ".add(1.0, 1, group={g})", 0),
}


def run(rep, ip, tier):
    """The group array every builder assigns is folded for every situation of a cell (its group in the base mesh, whether each
    selector takes it) and every kind of selector; names are read back through the numbering stored with the mesh."""
    rep.rule("the last selector that takes a cell names it; else its group in the base mesh unless ignored; else the default")
    rep.rule("one numbering per mesh: a name has one number and a number one name, in all items")
    rep.rule("the numbering is stored with the mesh")
    pairs = [(a, a) for a in SPECS] + [("{'X': m1}", "{'X': 'A'}"), ("'X'", "{'A': m1}"), ("{'Y': m2, 'X': m1}", "{'X': '~A'}"),
                                       ("None", "{'X': 'B', 'Y': m1}")]
    for b in BUILDERS:
        for g1, g2 in pairs:
            for ignore in ([], ["B"], ["A", "C"]):
                for default in (None, "D", "A"):
                    one(rep, ip, b, (g1, g2), ignore, default, True)
            one(rep, ip, b, (g1, g2), [], None, False)
    merging(rep, ip)
    looking_up(rep, ip)
    remapping(rep, ip)
    cleaning(rep, ip)


def one(rep, ip, b, specs, ignore, default, has_base):
    if not has_base and any("'A'" in g.split(":")[-1] or "'~A'" in g or "'C'" in g.split(":")[-1] or "'~B'" in g or ": 'B'" in g for g in specs):
        return
    make, add, _ = BUILDERS[b]
    key = f"{b}:{' / '.join(specs)}:ignore={ignore}:default={default}:base={has_base}"
    src = "b = " + make.format(d=repr(default), i=repr(ignore)) + "".join(add.format(g=g) for g in specs) + "\nout = b.generate_mesh()"
    leaf = GroupLeaf(ip, has_base)
    r = ip.run(src, PARAMS, assume=oracle(ip, leaf), opaque=DUMMY)
    rep.saw(r)
    evs = [e for e in r.events if group_write(e) and not any(CLEAN in q for q in e.stack)]
    arrays, table = [], None
    for e in evs:
        t = e.term
        if t.op == "attr" and t.args[1] == "user_dict":
            table = e.extra["value"]
        elif t.op == "attr" and t.args[1] == "cell_data":
            arrays.append(e)
    judge(rep, ip, r, key, leaf, arrays, table, [expected(SPECS[g], ignore, default or "default", has_base) for g in specs])


def group_write(e):
    return e.kind == "mutate" and e.extra.get("key", ("",))[0] == "item" and isinstance(e.extra["key"][1], Term) \
        and e.extra["key"][1].op == "const" and e.extra["key"][1].args[1] == "CellGroup" and isinstance(e.extra.get("value"), Term)


def judge(rep, ip, r, key, leaf, arrays, table, want):
    if r.final is None:
        rep.bad(key, "generate_mesh", f"{key}: refused")
        return
    if table is None or len(arrays) != len(want):
        rep.skip(key)
        return
    try:
        groups = Fold(ip, leaf, r.final.heap)(table)
        got = [Fold(ip, leaf, e.heap)(e.extra["value"]) for e in arrays]
    except Unknown:
        rep.skip(key)
        return
    except Fails as x:
        rep.bad(key, "_initialize_group_array", f"{key}: {x}")
        return
    if not isinstance(groups, dict) or not all(isinstance(g, list) and len(g) == N for g in got):
        rep.skip(key)
        return
    back = {}
    for n, c in groups.items():
        back.setdefault(c, []).append(n)
    clash = [(c, ns) for c, ns in back.items() if len(ns) > 1]
    rep.check(not clash, key + ":numbering", arrays[0].loc, f"{key}: number {clash[0][0] if clash else ''} stands for {clash[0][1] if clash else ''}")
    if clash:
        return
    for e, g, w in zip(arrays, got, want):
        bad = [(i, back.get(c, [f"number {c}"])[0], x) for i, (c, x) in enumerate(zip(g, w)) if back.get(c, [None])[0] != x]
        rep.check(not bad, key, e.loc, "" if not bad else
                  f"{key}: a cell of base group {NAMEOF.get(CODES[bad[0][0]])} with m1={M1[bad[0][0]]}, m2={M2[bad[0][0]]} becomes "
                  f"{bad[0][1]!r}, should be {bad[0][2]!r}")


def merging(rep, ip):
    for ignore in ([], ["B"], ["A", "C"]):
        for default in (None, "D", "A"):
            for g1, g2 in itertools.product((None, "X", "A"), ("Y", None)):
                for has_base in (True, False):
                    key = f"MeshMerge:{g1}/{g2}:ignore={ignore}:default={default}:base={has_base}"
                    src = (f"b = MeshMerge(default_group={default!r}, ignore_groups={ignore!r}).add(mesh, group={g1!r}).add(mesh2, group={g2!r})\n"
                           "out = b.generate_mesh()")
                    leaf = GroupLeaf(ip, has_base)
                    r = ip.run(src, {**PARAMS, "mesh2": {"types": ["UnstructuredGrid"]}}, assume=oracle(ip, leaf), opaque=DUMMY)
                    rep.saw(r)
                    arrays = [e for e in r.events if group_write(e) and not any(CLEAN in q for q in e.stack) and e.term.op == "attr"
                              and e.term.args[1] == "cell_data"]
                    judge(rep, ip, r, key, leaf, arrays, user_dict(ip, r),
                          [expected([], ignore, g or default or "default", has_base) for g in (g1, g2)])


def user_dict(ip, r):
    """The groups given to the mesh: an item of user_dict, or a user_dict that is replaced as a whole."""
    found = None
    for e in r.events:
        if e.kind != "mutate" or any(CLEAN in q for q in e.stack):
            continue
        v = e.extra.get("value")
        if group_write(e) and e.term.op == "attr" and e.term.args[1] == "user_dict":
            found = v
        elif e.extra.get("key", ("",))[0] == "attr" and e.extra["key"][1] == "user_dict" and isinstance(v, Term):
            d = e.heap.get(("obj", v), v) if v.op == "obj" else v
            if d.op == "dict":
                for k, x in d.args:
                    if k.op == "const" and k.args[1] == "CellGroup":
                        found = x
    return found


def looking_up(rep, ip):
    """get_cell_group: names through the stored numbering, plain numbers without one."""
    codes = [c for c in CODES if c in NAMEOF]

    def leaf_for(cell, user, key):
        def leaf(t):
            if t.op == "cmp" and t.args[0] in ("in", "not in") and t.args[1].op == "const" and t.args[2].op == "attr":
                if t.args[2].args[1] in ("cell_data", "user_dict"):
                    there = (cell if t.args[2].args[1] == "cell_data" else user) and t.args[1].args[1] == key
                    return there is (t.args[0] == "in")
            if t.op == "index" and t.args[0].op == "attr" and t.args[1].op == "const":
                if t.args[0].args[1] in ("cell_data", "user_dict"):
                    if not (cell if t.args[0].args[1] == "cell_data" else user) or t.args[1].args[1] != key:
                        raise Fails("KeyError")
                    return list(codes) if t.args[0].args[1] == "cell_data" else dict(BASE)
            return None
        return leaf

    for key in ("CellGroup", "Rock"):
        for cell, user in ((True, True), (True, False), (False, True), (False, False)):
            name = f"get_cell_group:{key}:data={cell}:names={user}"
            leaf = leaf_for(cell, user, key)
            r = ip.run(f"out = get_cell_group(mesh, {key!r})", PARAMS, assume=oracle(ip, leaf))
            rep.saw(r)
            want = None if not cell else names(codes) if user else codes
            decide(rep, ip, r, name, leaf, "get_cell_group", lambda: Fold(ip, leaf, r.final.heap)(r.env["out"]), want)


def decide(rep, ip, r, name, leaf, where, get, want):
    try:
        if r.final is None:
            raise Fails("refused")
        got = get()
    except Unknown:
        rep.skip(name)
        return
    except Fails as x:
        got = f"{x}"
    rep.check(got == want, name, where, f"{name}: {got}, should be {want}")


# mapping source -> (code -> new code)
MAPPINGS = {
    "{'A': 1, 'B': 2, 'C': 5}": {7: 1, 0: 2, 3: 5},
    "{'A': 0, 'B': 7}": {7: 0, 0: 7},
    "{'A': 5}": {7: 5},
    "{'B': 3, 'C': 0}": {0: 3, 3: 0},
    "{7: 4, 0: 1}": {7: 4, 0: 1},
    "{'C': 6, 0: 5}": {0: 5, 3: 6},
    "{9: 8}": {9: 8},
    "{'A': 1, 9: 8}": {9: 8, 7: 1},
    "{}": {},
}


def remapping(rep, ip):
    """remap_categorical_data: numbers change as asked, all at once, and no others."""
    for src, new in MAPPINGS.items():
        for inplace in (True, False):
            for preference in ("cell", "point"):
                for codes in ([7, 0, 3, 9, 7], [7, 3, 3], [0]):
                    for labels in (BASE, None):
                        if labels is None and "'" in src:
                            continue
                        if any(c not in codes for c in new) and labels is None:
                            continue
                        one_mapping(rep, ip, src, new, inplace, preference, codes, labels)


def one_mapping(rep, ip, src, new, inplace, preference, codes, labels):
    name = f"remap_categorical_data:{src}:{preference}:inplace={inplace}:data={codes}:names={labels is not None}"
    attr = preference + "_data"

    def leaf(t):
        if t.op == "index" and t.args[0].op == "attr" and t.args[1].op == "const" and t.args[1].args[1] == "Rock":
            if t.args[0].args[1] == attr:
                return list(codes)
            if t.args[0].args[1] in ("cell_data", "point_data"):
                raise Fails("KeyError")
            if t.args[0].args[1] == "user_dict":
                if labels is None:
                    raise Fails("KeyError")
                return dict(labels)
        return None

    r = ip.run(f"out = remap_categorical_data(mesh, 'Rock', {src}, {preference!r}, {inplace})", PARAMS, assume=oracle(ip, leaf))
    rep.saw(r)
    data = None
    for e in r.events:
        if e.kind == "mutate" and e.extra.get("key", ("",))[0] == "item" and isinstance(e.extra["key"][1], Term) \
                and e.extra["key"][1].op == "const" and e.extra["key"][1].args[1] == "Rock" and e.term.op == "attr":
            if e.term.args[1] == attr:
                data = e
    if r.final is None:
        rep.bad(name, "remap_categorical_data", f"{name}: refused")
        return
    if data is None:
        rep.skip(name)
        return
    want = [new.get(c, c) for c in codes]
    try:
        got = Fold(ip, leaf, data.heap)(data.extra["value"])
    except Unknown:
        rep.skip(name)
        return
    except Fails as x:
        rep.bad(name, data.loc, f"{name}: {x}")
        return
    rep.check(got == want, name, data.loc, f"{name}: numbers become {got}, should be {want}")


def cleaning(rep, ip):
    """Names without cells are dropped by renumbering: every name with cells must keep a number of its own."""
    for used in ([0, 1, 2], [1, 2], [0, 2, 2], [2], [1, 0]):
        key = f"MeshExtrude:cleaning:used={used}"

        def leaf(t):
            if t.op == "index" and t.args[1].op == "const" and t.args[1].args[1] == "CellGroup" and t.args[0].op == "attr":
                if t.args[0].args[1] == "cell_data":
                    return list(used)
            if t.op == "cmp" and t.args[0] in ("in", "not in") and t.args[1].op == "const" and t.args[2].op == "attr" \
                    and t.args[2].args[1] in ("cell_data", "user_dict"):
                there = t.args[1].args[1] == "CellGroup" and any(x.op == "call" and is_glob(x.args[0], "pvgridder.merge")
                                                                for x in subterms(t.args[2]))
                return there is (t.args[0] == "in")
            if t.op == "attr" and t.args[1] == "n_cells":
                return len(used)
            return None

        r = ip.run("b = MeshExtrude(mesh).add(v, 1, group='X').add(v, 1, group='Y').add(v, 1, group='Z')\nout = b.generate_mesh()",
                   PARAMS, assume=oracle(ip, leaf), opaque=DUMMY)
        rep.saw(r)
        names_ = {"X": 0, "Y": 1, "Z": 2}
        calls = [e for e in r.events if e.kind == "call_int" and e.extra["func"].qual.endswith("remap_categorical_data")]
        if r.final is None:
            rep.bad(key, "_clean", f"{key}: refused")
            continue
        for e in calls:
            env = e.extra["env"]
            try:
                mapping = Fold(ip, leaf, e.heap)(env["mapping"])
                what = Fold(ip, leaf, e.heap)(env["key"])
            except (Unknown, Fails, KeyError):
                rep.skip(key)
                continue
            if not isinstance(mapping, dict):
                rep.skip(key)
                continue
            new = {}
            for n, c in names_.items():
                if c in used:
                    new[n] = mapping.get(n, mapping.get(c, c))
            clash = len(set(new.values())) < len(new)
            rep.check(not clash and what == "CellGroup", key, e.loc, f"{key}: names with cells are renumbered {new}")
        if not calls:
            rep.ok(key)
