"""Driver snippets for the public API: one symbolic call per entry point."""
from __future__ import annotations

import ast

from . import extmodel as X
from .terms import Term


def params_of(fn, skip_self=False):
    a = fn.node.args
    out = []
    pos = a.posonlyargs + a.args
    if skip_self and pos:
        pos = pos[1:]
    nd = len(a.defaults)
    for i, p in enumerate(pos):
        out.append((p.arg, p.annotation, i >= len(pos) - nd, False))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        out.append((p.arg, p.annotation, d is not None, True))
    return out


def spec(ann):
    tags = X.ann_tags(ann)
    if tags is None:
        return {}
    tags = set(tags)
    return {"types": sorted(tags)}


def entry(ip, f, prefix="", recv=None, extra=None, skip=()):
    """(call source, params) for function/class term *f*."""
    if f.op == "cls":
        m = ip.find_member(f.args[0], "__init__")
        fn = ip.func_of(m) if m is not None else None
        ps = params_of(fn, True) if fn else []
    else:
        fn = ip.func_of(f)
        ps = params_of(fn, recv is not None)
    args, params = [], {}
    for name, ann, has_default, kwonly in ps:
        if name in skip:
            continue
        v = prefix + name
        params[v] = spec(ann)
        args.append(f"{name}={v}" if kwonly else v)
        if not kwonly and skip:
            args[-1] = f"{name}={v}"
    a = fn.node.args if fn else None
    if a is not None and a.vararg is not None:
        v = prefix + a.vararg.arg
        params[v] = spec(a.vararg.annotation)
        args.append(v)
    return ", ".join(args), params


def builders(ip):
    """Public classes that offer generate_mesh: {name: [public method names]}"""
    out = {}
    for n, t in ip.public().items():
        if t.op == "cls" and ip.find_member(t.args[0], "generate_mesh") is not None:
            ms = []
            seen = set()
            for c in ip.mro(t.args[0]):
                for m in ip.classes[c].members:
                    if m in seen or m.startswith("_"):
                        continue
                    seen.add(m)
                    f = ip.func_of(ip.find_member(t.args[0], m))
                    if f is not None and f.kind == "func":
                        ms.append(m)
            out[n] = sorted(ms)
    return out


def functions(ip):
    return {n: t for n, t in ip.public().items() if t.op == "func"}


def dotted(n):
    return n.replace("examples.", "examples_")


def script(ip, cls, steps, over=None, init_over=None):
    """Driver source for builder *cls*: construct, then the listed method calls.

    *over*: {(step index, param): spec or Term} overrides; params get names ``s<i>_<param>``.
    """
    over = over or {}
    src, ps = entry(ip, ip.public()[cls], prefix="i_")
    code, params = [f"b = {cls}({src})"], dict(ps)
    for k, v in (init_over or {}).items():
        params["i_" + k] = v
    for i, m in enumerate(steps):
        mt = ip.find_member(ip.public()[cls].args[0], m)
        s2, p2 = entry(ip, mt, prefix=f"s{i}_", recv=True)
        params.update(p2)
        for (j, k), v in over.items():
            if j == i:
                params[f"s{i}_{k}"] = v
        target = "m = " if m == "generate_mesh" else ""
        code.append(f"{target}b.{m}({s2})")
    return "\n".join(code) + "\n", params
