"""Builder state rules: C02 (generating is repeatable) and C03 (builders own what they store)."""
from __future__ import annotations

from .. import alias, api, extmodel as X
from ..interp import State
from ..report import Broken
from ..terms import DELETED, NONE, Term, mk, show
from .inputs import cell_of


def reachable(ip, st, root):
    """Terms stored (transitively) in *root*: {term: path}."""
    out, todo = {}, [(root, "builder")]
    by_base = {}
    for k, v in st.heap.items():
        if k[0] in ("attr", "item"):
            by_base.setdefault(k[1], []).append((k, v))
    while todo:
        t, path = todo.pop()
        if not isinstance(t, Term) or t in out or t.op in ("const", "func", "cls", "closure", "glob"):
            continue
        out[t] = path
        if t.op == "phi":
            todo += [(t.args[1], path), (t.args[2], path)]
            continue
        if t.op in ("tuple", "list"):
            todo += [(x, f"{path}[{i}]") for i, x in enumerate(t.args)]
        elif t.op == "dict":
            todo += [(x, f"{path}[{show(k)}]") for k, x in t.args]
        elif t.op in ("append", "concat"):
            todo += [(x, path) for x in t.args]
        elif t.op == "store" or t.op == "dictset":
            todo += [(t.args[0], path), (t.args[2], path)]
        elif t.op in ("star", "dup"):
            todo.append((t.args[0], path))
        for k, v in by_base.get(t, ()):
            if k[0] == "attr":
                todo.append((v, f"{path}.{k[2]}"))
        for c in X.DATA_CONTAINERS:
            for k, v in by_base.get(mk("attr", t, c), ()):
                todo.append((v, f"{path}.{c}[{show(k[2])}]"))
        c = st.heap.get(("obj", t))
        if c is not None:
            todo.append((c, path))
    return out


def steps_for(ms, m):
    s = [m, m] if m.startswith("add") else ["add", "add", m]
    return [x for x in s if x in ms]


def all_scripts(ip):
    bs = api.builders(ip)
    if len(bs) < 5:
        raise Broken(f"builders found: {sorted(bs)}")
    for n, ms in sorted(bs.items()):
        for m in ms:
            if m == "generate_mesh":
                continue
            yield n, m, steps_for(ms, m)


def run_repeat(rep, ip, tier):
    """C02: every write made while generating targets storage that is not part of the builder (nor of
    module-level state), or is undone before the call ends; decided on the effects of generate_mesh
    for every builder, after every way of adding items, with symbolic arguments."""
    rep.rule("writes inside generate_mesh must not reach storage reachable from the builder before the call, "
             "nor module-level objects; attributes that did not exist before (caches) are allowed")
    mod_objs = {k[1] for k in ip.base.heap if k[0] == "obj"}
    for n, m, steps in all_scripts(ip):
        code, ps = api.script(ip, n, steps)
        pre = ip.run(code, ps)
        if pre.final is None:
            rep.skip(f"{n}.{m}: no normal exit")
            continue
        before = reachable(ip, pre.final, pre.env["b"])
        pre_heap = dict(pre.final.heap)
        npre = len(pre.events)
        code, ps = api.script(ip, n, steps + ["generate_mesh"])
        r = ip.run(code, ps)
        rep.saw(r)
        b = r.env.get("b") or pre.env["b"]
        before = reachable_at(ip, r, npre, pre_heap, pre.env["b"], before)
        for ev in r.events:
            if ev.kind != "mutate" or not ev.extra.get("sure") or not in_generate(ev, n):
                continue
            stops = set(before) | mod_objs
            own = [x for x in alias.touched(ip, ev, stops=stops) if x in stops]
            if not own:
                continue
            cell = cell_of(ev)
            k = ev.extra.get("key") or ("",)
            if cell is not None:
                old = pre_heap.get(cell)
                if old is None and cell[0] == "attr" and cell[1].op == "obj":
                    continue  # a new attribute of the builder: a cache
                old = old if old is not None else ip.default(cell)
                new = r.final.heap.get(cell) if r.final is not None else None
                if new is old:
                    continue
            path = sorted(before.get(x, "module state") for x in own)[0]
            fn = ev.fn.split("pvgridder.")[-1]
            rep.bad(f"{n}.generate_mesh:{fn}:{path_key(path)}", ev.loc,
                    f"{n}.generate_mesh() modifies {path} ({ev.extra['how']}) in {fn} after {' > '.join(steps)}; "
                    f"a second call sees a different builder")
        rep.ok(f"{n}: {' > '.join(steps)} > generate_mesh")


def path_key(p):
    import re

    return re.sub(r"\[\d+\]", "[*]", p)


def reachable_at(ip, r, npre, heap, b, before):
    return before


def in_generate(ev, n):
    return any(q.split(".")[-1] in ("generate_mesh", "_generate_mesh") for q in ev.stack)


# plain options kept by reference (not geometry): replaced, never written, by the library
OPTIONS = {"resolution", "group", "groups", "ignore_groups", "method", "args", "kwargs", "priority", "default_group"}


def scalar(ip, t):
    ts = ip.types(t)
    return ts is not None and not (ts - X.IMMUTABLE)


def is_geometry(name, spec):
    return name not in OPTIONS and isinstance(spec, dict)


def run_own(rep, ip, tier):
    """C03: escape analysis of what builders keep: nothing stored by a constructor or an add method may
    share storage with a mesh or point array of the caller (views and shallow copies followed)."""
    rep.rule("terms stored in the builder own their storage: no alias to a caller's mesh or array argument")
    for n, m, steps in all_scripts(ip):
        code, ps = api.script(ip, n, steps)
        r = ip.run(code, ps)
        rep.saw(r)
        if r.final is None:
            rep.skip(f"{n}.{m}: no normal exit")
            continue
        ip.st = r.final
        data = {t for k, t in r.syms.items() if is_geometry(k.split("_", 1)[1], ps.get(k))}
        keep = reachable(ip, r.final, r.env["b"])
        for t, path in keep.items():
            if t.op in ("obj",):
                continue
            ts = ip.types(t)
            for mode in ("shell", "elem"):
                hits = [x for x in alias.owners(ip, t, mode) if x in data]
                for h in hits:
                    name = show(h).split("_", 1)[1]
                    rep.bad(f"{n}:{path_key(path)}:{name}", f"{n}.{m}",
                            f"{n}: {path} shares storage with the caller's {name} after {' > '.join(steps)}")
        rep.ok(f"{n}: {' > '.join(steps)}")
        # the generated mesh: no storage shared with the builder
        code, ps = api.script(ip, n, steps + ["generate_mesh"])
        g = ip.run(code, ps)
        rep.saw(g)
        if g.final is None or "m" not in g.env:
            rep.skip(f"{n}.{m}: generate has no normal exit")
            continue
        ip.st = g.final
        stops = {t for t in keep if t.op not in ("obj", "deleted", "absent", "undef", "const") and not scalar(ip, t)}
        for t, path in reachable(ip, g.final, g.env["m"]).items():
            if t.op == "obj" or ".user_dict" in path:  # user data is stored as JSON text
                continue
            for mode in ("shell", "elem"):
                for h in alias.owners(ip, t, mode, stops=stops):
                    if h in stops:
                        rep.bad(f"{n}:generated:{path_key(path).replace('builder', 'mesh')}:{path_key(keep[h])}",
                                f"{n}.generate_mesh",
                                f"{n}: the generated mesh shares storage with {keep[h]} after {' > '.join(steps)}")
        rep.ok(f"{n}: {' > '.join(steps)} > generate_mesh")
