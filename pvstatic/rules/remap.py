"""Remapping categorical data."""
from __future__ import annotations

from .. import known
from ..fold import Fails, Fold, Unknown
from ..known import Known, Mesh

VALUES = [4, 0, 6, 1, 4, 2, 0, 1]
NAMES = {"w": 4, "a": 0, "b": 1, "unused": 9, "c": 2}
CASES = {
    "one": {"a": 7}, "by number": {1: 7}, "swap": {"a": 1, "b": 0}, "chain": {"a": 1, "b": 2, "c": 5}, "rotate": {"w": 0, "a": 1, "b": 2, "c": 4},
    "all": {"w": 3, "a": 2, "b": 1, "c": 0}, "mixed": {"a": 30, 1: 31}, "swap by number": {0: 4, 4: 0}, "nothing": {}, "unused": {"unused": 3},
    "absent number": {17: 3}, "absent then used": {17: 2, "a": 6}, "same": {"a": 0}, "unused and used": {"unused": 12, "w": 13},
    "several to a new one": {"a": 8, "b": 8}, "without name": {6: 9}, "onto one without name": {"a": 6, 6: 0}, "into another": {"b": 2}, "into another by number": {1: 2, 2: 1, 4: 2}, "unknown": {"nope": 3}, "known then unknown": {"a": 3, "nope": 4},
}


def run(rep, ip, tier):
    """remap_categorical_data on an array of eight values with five names (one unused, numbers with gaps, one value without name), for mappings by name and
    by number: values, stored names and the in-place flag."""
    rep.rule("each value in the mapping is replaced by its new value, judged by the values before the call; the others stay")
    rep.rule("every value that had a name still has it under its new number; names without values are not kept")
    rep.rule("cell or point data as asked; the mesh itself only when inplace; unknown names and non-integer data are refused")
    for name, mapping in CASES.items():
        for pref in (None, "cell", "point"):
            for inplace in (None, False, True):
                for labelled in (True, False):
                    one(rep, ip, name, mapping, pref, inplace, labelled)


    for pref in ("cell", "point"):
        for bad, vals in {"fractions": [0.5, 1.0, 2.0], "text": ["a", "b", "a"]}.items():
            refused(rep, ip, bad, vals, pref)
    refused(rep, ip, "preference 'field'", [0, 1, 2], "field")


def refused(rep, ip, bad, vals, pref):
    key = f"remap_categorical_data:{bad}:{pref}"
    m = Mesh([(1, [i]) for i in range(3)], cell_data={"K": vals if pref == "cell" else [0, 1, 2]}, point_data={"K": vals if pref == "point" else [0, 1, 2]})
    leaf = Known(ip, {"m": m})
    r = known.run(ip, f"out = remap_categorical_data(m, 'K', {{0: 1}}, preference={pref!r})", {"m": {"types": ["PolyData"]}}, leaf)
    rep.saw(r)
    if r.final is not None and not known.accepted(r):
        rep.skip(key)
        return
    rep.check(r.final is None, key, "remap_categorical_data", f"{key}: accepted")


def one(rep, ip, name, mapping, pref, inplace, labelled):
    named = any(isinstance(k, str) for k in mapping)
    key = f"remap_categorical_data:{name}:{pref}:inplace={inplace}:{'names' if labelled else 'no names'}"
    n = len(VALUES)
    other = [5] * n
    where = pref or "cell"
    m = Mesh([(1, [i]) for i in range(n)], user={"K": dict(NAMES)} if labelled else {},
             cell_data={"K": VALUES if where == "cell" else other}, point_data={"K": VALUES if where == "point" else other})
    leaf = Known(ip, {"m": m})
    args = f"m, 'K', {mapping!r}" + (f", preference={pref!r}" if pref else "") + (f", inplace={inplace}" if inplace is not None else "")
    r = known.run(ip, f"out = remap_categorical_data({args})", {"m": {"types": ["PolyData"]}}, leaf)
    rep.saw(r)
    func = "remap_categorical_data"
    if "nope" in mapping or named and not labelled:
        if r.final is not None and not known.accepted(r):
            rep.skip(key)
            return
        rep.check(r.final is None, key, func, f"{key}: a name the data does not have is accepted")
        return
    if r.final is None:
        rep.bad(key, func, f"{key}: refused")
        return
    ip.st = r.final
    new = {(NAMES[k] if isinstance(k, str) else k): v for k, v in mapping.items()}
    want = [new.get(v, v) for v in VALUES]
    names = {k: new.get(v, v) for k, v in NAMES.items() if v in VALUES} if labelled else {}
    try:
        fold = Fold(ip, leaf)
        out = r.env["out"]
        if inplace:
            if not (out.op == "const"):
                raise Unknown()
            out = r.syms["m"]
        g, src = leaf.full(out, fold), leaf.full(r.syms["m"], fold)
        if g is None or src is None:
            raise Unknown()
        mine, rest = (g.cell_data, g.point_data) if where == "cell" else (g.point_data, g.cell_data)
        why = None
        if mine["K"] != want:
            why = f"values {mine['K']} instead of {want}"
        elif rest["K"] != other:
            why = "changes the data of the other kind"
        elif labelled and g.user.get("K") != names:
            why = f"names {g.user.get('K')} instead of {names}"
        elif not labelled and g.user.get("K"):
            why = f"names {g.user.get('K')} out of nothing"
        elif not inplace and (src.cell_data["K"], src.point_data["K"], src.user.get("K")) != (m.cell_data["K"], m.point_data["K"], m.user.get("K")):
            why = "the mesh given is changed"
    except Unknown:
        rep.skip(key)
        return
    except Fails as e:
        why = f"fails: {e}"
    rep.check(why is None, key, func, f"{key}: {why}")
