"""C01: entry points never modify what the caller passes in (effect and alias analysis)."""
from __future__ import annotations

from .. import alias, api, extmodel as X
from ..report import Broken
from ..terms import DELETED, decide, mk, show

# parameters documented as being acted upon
EXEMPT = {("*", "plotter"), ("remap_categorical_data", "inplace")}


def same_as_before(ip, key, v, facts=()):
    """Does heap cell *key* hold what it held on entry?"""
    if v is None:
        return True
    dflt = ip.default(key)
    if v is dflt:
        return True
    if v.op == "dup":
        return False
    if v.op == "phi":
        c, a, b = v.args
        for g, t in facts:
            d = decide(c, g, t)
            if d is not None:
                return same_as_before(ip, key, a if d else b, facts)
        return (same_as_before(ip, key, a, facts + ((c, True),))
                and same_as_before(ip, key, b, facts + ((c, False),)))
    if v is DELETED and key[0] == "item":
        absent = mk("cmp", "in", key[2], key[1])
        return any(_denies(c, t, absent) for c, t in facts)
    return False


def _denies(c, t, absent):
    if c is absent:
        return t is False
    if c.op == "not":
        return _denies(c.args[0], not t, absent)
    return False


def cell_of(ev):
    """Heap cell a container-level mutation writes, or None."""
    k = ev.extra.get("key")
    if not k:
        return None
    if k[0] in ("item", "pop") and len(k) > 1 and X.is_data_container(ev.term):
        return ("item", ev.term, k[1])
    if k[0] == "attr" and k[1] is not None:
        return ("attr", ev.term, k[1])
    return None


def review(rep, ip, r, label, syms, exempt=(), stops=()):
    """Report every write reaching storage of *syms* in run *r*."""
    rep.saw(r)
    n = 0
    for ev in r.events:
        if ev.kind != "mutate":
            continue
        n += 1
        hit = sorted(show(x) for x in alias.touched(ip, ev) if x in syms)
        hit = [h for h in hit if h not in exempt]
        if not hit or not ev.extra.get("sure"):
            continue
        cell = cell_of(ev)
        if cell is not None and r.final is not None or cell is not None and r.exc_exits:
            worst = None
            if r.final is not None and not same_as_before(ip, cell, r.final.heap.get(cell)):
                worst = "still modified when the call returns"
            for st, node, explicit, exc, what, mod, fn in r.exc_exits:
                if st is not None and not same_as_before(ip, cell, st.heap.get(cell), st.facts):
                    worst = worst or (f"left modified when an exception leaves the call at "
                                      f"{mod.rel}:{getattr(node, 'lineno', '?')}")
            if worst is None:
                continue
        else:
            worst = ev.extra["how"]
        fn = ev.fn.split("pvgridder.")[-1]
        rep.bad(f"{label}:{fn}:{'/'.join(hit)}", ev.loc,
                f"{label}: caller's {', '.join(hit)} is modified ({worst}) through {show(ev.term, 4)} in {fn}")
    return n


def run(rep, ip, tier):
    rep.rule("no write event of any public call may reach storage owned by a caller's argument "
             "(views, shallow copies and shared arrays followed), on return or on any exceptional exit")
    total = 0
    fs = api.functions(ip)
    if len(fs) < 30:
        raise Broken(f"public functions found: {len(fs)}")
    for n, f in sorted(fs.items()):
        if n.startswith("examples."):
            continue
        src, ps = api.entry(ip, f)
        if n == "remap_categorical_data" and "inplace" in ps:
            src = src.replace("inplace=inplace", "inplace=False").replace(", inplace,", ", False,")
            if src.endswith(", inplace"):
                src = src[: -len("inplace")] + "False"
            ps.pop("inplace")
        r = ip.run(f"{n}({src})", ps)
        ex = {p for p in ps if "plotter" in p}
        total += review(rep, ip, r, n, set(r.syms.values()), ex)
        rep.ok(f"{n}({', '.join(ps)})")
    bs = api.builders(ip)
    if len(bs) < 5:
        raise Broken(f"builders found: {sorted(bs)}")
    for n, ms in sorted(bs.items()):
        for m in [x for x in ms if x != "generate_mesh"]:
            steps = ([m, m] if m.startswith("add") else ["add", "add", m])
            steps = [s for s in steps if s in ms] + ["generate_mesh"]
            code, ps = api.script(ip, n, steps)
            r = ip.run(code, ps)
            total += review(rep, ip, r, f"{n}.{m}", set(r.syms.values()))
            rep.ok(f"{n}: {' > '.join(steps)}")
    rep.write_events = total
