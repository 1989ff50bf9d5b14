"""C04: inactive (ghost) cells are never lost by queries, and extraction keeps their marks (typestate)."""
from __future__ import annotations

from .. import api, extmodel as X
from ..interp import State
from ..report import Broken
from ..terms import FALSE, Term, const, decide, mk, show, subterms

KEY = const("vtkGhostType")
# VTK filters that skip or drop cells marked in vtkGhostType
SENSITIVE = {"cell_centers", "extract_cells", "extract_geometry", "extract_surface", "extract_cells_by_type",
             "cast_to_unstructured_grid", "threshold", "clean", "extract_feature_edges", "cell_quality",
             "compute_cell_quality"}
SCOPE = {"get_cell_centers": {}, "extract_cells": {}, "extract_cell_geometry": {"remove_ghost_cells": False},
         "get_neighborhood": {"remove_ghost_cells": False}, "get_connectivity": {"remove_ghost_cells": False}}


def leaves(ip, t, facts):
    if t.op == "phi":
        c, a, b = t.args
        for g, v in facts:
            d = decide(c, g, v)
            if d is not None:
                yield from leaves(ip, a if d else b, facts)
                return
        yield from leaves(ip, a, facts + ((c, True),))
        yield from leaves(ip, b, facts + ((c, False),))
    else:
        yield t, facts


def carries(t):
    """The caller's mesh *t* is a relabelled version of, through copies that keep the cells."""
    while t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in X.SAME_TOPO:
        t = t.args[0].args[0]
    return t


def holder(ip, t):
    """The mesh in the copy chain of *t* whose data table was last touched."""
    while t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in X.SAME_TOPO:
        c = mk("attr", t, "cell_data")
        if ("item", c, KEY) in ip.st.heap or ("cleared", c) in ip.st.heap:
            break
        t = t.args[0].args[0]
    return t


def run(rep, ip, tier):
    """C04: typestate of the ghost marks at every cell-dropping VTK filter call reached from the query
    functions: the marks must be hidden on the receiver; extraction must re-attach them through the ids of
    the original cells."""
    rep.rule("no ghost-sensitive filter is applied to a mesh whose ghost marks may be present")
    rep.rule("the mesh returned by extract_cells carries the marks of the cells it was extracted from")
    fs = api.functions(ip)
    for n, fixed in SCOPE.items():
        if n not in fs:
            raise Broken(f"{n} is not public any more")
        src, ps = api.entry(ip, fs[n])
        pre = ""
        for k, v in fixed.items():
            if k not in ps:
                raise Broken(f"{n} has no parameter {k}")
            ps.pop(k)
            pre += f"{k} = {v}\n"
        mesh_name = next((k for k in ps if "mesh" in k), None)
        if mesh_name is None:
            raise Broken(f"{n} has no mesh parameter")
        r = ip.run(pre + f"out = {n}({src})", ps)
        rep.saw(r)
        mesh = r.syms[mesh_name]
        for ev in r.events:
            if ev.kind != "call" or ev.extra["f"].op != "attr":
                continue
            recv, m = ev.extra["f"].args
            if m not in SENSITIVE:
                continue
            ip.st = State(dict(ip.base.envs), dict(ev.heap), ev.facts)
            for leaf, facts in leaves(ip, recv, ev.facts):
                root = carries(leaf)
                if root is not mesh:
                    continue
                ip.st.facts = facts
                c = ip.truth(ip.contains(KEY, mk("attr", holder(ip, leaf), "cell_data"), None))
                d = ip.decide(c)
                rep.check(d is False, f"{n}:{ev.fn.split('.')[-1]}:{m}", ev.loc,
                          f"{n}: {m}() is applied to the caller's mesh while its ghost marks may be present; "
                          f"inactive cells are dropped from the result")
    # extraction keeps the marks
    src, ps = api.entry(ip, fs["extract_cells"])
    mesh_name = next(k for k in ps if "mesh" in k)
    r = ip.run(f"out = extract_cells({src})", ps)
    if r.final is None:
        raise Broken("extract_cells has no normal exit")
    mesh = r.syms[mesh_name]
    has = mk("cmp", "in", KEY, mk("attr", mesh, "cell_data"))
    v = r.read('out.cell_data["vtkGhostType"]')
    ip.st = r.final
    bad = None
    for leaf, facts in leaves(ip, v, ((has, True),)):
        if not ok_marks(leaf, mesh):
            bad = leaf
    rep.check(bad is None, "extract_cells:marks", "pvgridder.extract_cells",
              f"extracted cells do not carry the ghost marks of the cells they come from: {show(bad, 5) if bad else ''}")


def ok_marks(t, mesh):
    """mesh.cell_data[ghost][<ids of the extracted cells>]"""
    while t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("copy", "astype", "take"):
        if t.args[0].args[1] == "take":
            return t.args[0].args[0] is mk("index", mk("attr", mesh, "cell_data"), KEY) and bool(
                _ids(t.args[1][0]))
        t = t.args[0].args[0]
    if t.op == "dup":
        return ok_marks(t.args[0], mesh)
    if t.op == "call" and t.args[0] is mk("glob", "numpy.take"):
        t = mk("index", t.args[1][0], t.args[1][1])
    if t.op != "index":
        return False
    return t.args[0] is mk("index", mk("attr", mesh, "cell_data"), KEY) and bool(_ids(t.args[1]))


def _ids(k):
    names = {x.args[1] for x in subterms(k) if x.op == "const"}
    return "vtkOriginalCellIds" in names
