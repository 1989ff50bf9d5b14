"""Alias client: which storage does a reference designate?

``owners(ip, t, mode)`` yields the terms whose storage *t* may be part of, along some
feasible branch (facts of the current state are honoured).  ``mode``:

* ``"shell"``: the container object itself (attribute, data-array table, list, dict);
* ``"elem"``: array elements (numpy memory), reached through views and shallow copies.

Unknown constructs yield nothing (the client stays silent on them).
"""
from __future__ import annotations

from .terms import ABSENT, DELETED, NONE, Term, UNDEF, cval, is_const, is_glob, mk, subterms
from . import extmodel as X

VIEW_FUNCS = {"numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.ravel",
              "numpy.reshape", "numpy.transpose", "numpy.squeeze", "numpy.atleast_1d", "numpy.atleast_2d",
              "numpy.atleast_3d", "numpy.expand_dims", "numpy.broadcast_to", "numpy.moveaxis", "numpy.swapaxes",
              "numpy.split", "numpy.array_split", "numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.rot90",
              "numpy.nan_to_num_view", "numpy.real", "numpy.diagonal", "numpy.require", "numpy.asarray_chkfinite"}
VIEW_METHODS = {"reshape", "ravel", "transpose", "squeeze", "view", "swapaxes", "diagonal", "__getitem__"}
ITER_FUNCS = {"builtins.zip", "builtins.enumerate", "builtins.reversed", "builtins.list", "builtins.tuple",
              "builtins.sorted", "builtins.iter", "builtins.filter", "itertools.chain", "builtins.map"}
VIEW_ATTRS = {"T", "real", "imag", "flat", "points", "celltypes", "offset", "cell_connectivity", "x", "y", "z",
              "cells", "regular_faces", "irregular_faces", "active_scalars"}


def kw(call, name):
    for k, v in call.args[2]:
        if k == name:
            return v
    return None


def owners(ip, t, mode="elem", seen=None, stops=()):
    seen = set() if seen is None else seen
    out = set()
    _walk(ip, t, mode, seen, stops, out)
    return out


def _walk(ip, t, mode, seen, stops, out):
    if not isinstance(t, Term) or (t, mode) in seen:
        return
    seen.add((t, mode))
    if t in stops:
        out.add(t)
        return
    o = t.op
    go = lambda x, m=mode: _walk(ip, x, m, seen, stops, out)
    if o == "sym":
        ts = ip.types(t)
        if ts is not None:
            ts = ts - X.IMMUTABLE
            if not ts:
                return
            if mode == "elem" and not (ts & (X.MESHES | {"ndarray", "container"})) and ts <= {"list", "dict", "set"}:
                return
        out.add(t)
    elif o == "obj":
        out.add(t)
    elif o == "phi":
        d = ip.decide(t.args[0])
        if d is not False:
            go(t.args[1])
        if d is not True:
            go(t.args[2])
    elif o == "mu":
        for x in ip.mu_next.get(t, ()):
            go(x)
    elif o == "attr":
        b, n = t.args
        if n in X.DATA_CONTAINERS:
            go(b)
        elif mode == "elem":
            if n in VIEW_ATTRS:
                go(b, "elem")
        else:
            # a sub-object reached through an attribute of an owned object
            if n not in X.ARRAY_ATTRS and n not in X.INT_ATTRS:
                go(b)
    elif o == "index":
        b, k = t.args
        if X.is_data_container(b):
            go(b.args[0], "elem" if mode == "elem" else mode)
        elif X.is_mesh_item(ip, b, k):
            go(b)
        elif b.op == "attr" and b.args[1] == "irregular_faces":
            go(b)
        else:
            bt = ip.types(b)
            if bt is not None and bt <= {"list", "tuple", "dict"}:
                go(b)
                return
            r = X.basic_index(ip, k)
            if r is True:
                go(b)
    elif o == "elem":
        it = t.args[0]
        go(it)
    elif o in ("tuple", "list"):
        # member of a literal collection (reached through elem/index only)
        for x in t.args:
            go(x)
    elif o in ("append", "concat", "store"):
        go(t.args[0])
        if o != "store":
            go(t.args[1])
        else:
            ts = ip.types(t.args[0])
            if ts is not None and ts <= {"list"}:
                go(t.args[2])
    elif o == "comp":
        go(t.args[1])
    elif o == "star":
        go(t.args[0])
    elif o == "call":
        f = t.args[0]
        if f.op == "glob":
            n = f.args[0]
            if n in VIEW_FUNCS and t.args[1]:
                if mode == "elem":
                    go(t.args[1][0])
            elif n == "numpy.array" and t.args[1]:
                c = kw(t, "copy")
                if mode == "elem" and c is not None and is_const(c) and not cval(c):
                    go(t.args[1][0])
            elif n in X.SHARING_CTORS and mode == "elem":
                for a in t.args[1]:
                    go(a)
                for _, a in t.args[2]:
                    go(a)
            elif n in ITER_FUNCS:
                for a in t.args[1]:
                    go(a)
        elif f.op == "attr":
            b, m = f.args
            bt = ip.types(b)
            mesh = bt is not None and bt <= X.MESHES
            if m in ("items", "values"):
                go(b)
            elif m in ("get", "pop", "setdefault") and (bt is None or not bt & {"ndarray"}):
                go(b)
            elif m == "copy":
                d = kw(t, "deep")
                if d is None and t.args[1] and mesh:
                    d = t.args[1][0]
                if mesh and d is not None and is_const(d, False) and mode == "elem":
                    go(b)
                elif bt is not None and bt <= {"list", "dict"} and mode == "elem":
                    go(b)
            elif m == "astype":
                c = kw(t, "copy")
                if c is not None and is_const(c, False) and mode == "elem":
                    go(b)
            elif m in VIEW_METHODS and mode == "elem" and not mesh:
                go(b)
            elif m in X.SHALLOW and mode == "elem" and bt is not None and bt <= X.MESHES:
                go(b)
            elif m in X.SHARING_METHODS and mode == "elem":
                for a in t.args[1]:
                    go(a)
            elif m in ("__enter__",):
                go(b)


def touched(ip, ev, stops=()):
    """(owner, mode) pairs of the storage a ``mutate`` event writes."""
    key = (ev.extra.get("key") or ("",))[0]
    if key == "elem":
        mode = "elem"
    else:
        mode = "shell"
    saved = ip.st
    from .interp import State

    ip.st = State(dict(saved.envs) if saved else {}, ev.heap, ev.facts)
    try:
        own = owners(ip, ev.term, mode, stops=stops)
        if key not in ("elem",):
            ts = ip.types(ev.term)
            if ts is not None and ts == {"ndarray"}:
                own |= owners(ip, ev.term, "elem", stops=stops)
        return own
    finally:
        ip.st = saved
