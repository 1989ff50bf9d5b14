"""C18: no hidden state (effect analysis of module level, class level, default arguments and caches)."""
from __future__ import annotations

import ast

from .. import alias, api, extmodel as X
from ..interp import State
from ..report import Broken
from ..terms import Term, mk, show, subterms

# sources of values that differ from call to call
VARYING = ("random.", "numpy.random.", "secrets.", "uuid.", "time.", "datetime.datetime.now", "datetime.datetime.today",
           "datetime.datetime.utcnow", "datetime.date.today", "os.environ", "os.getenv", "os.getpid", "os.urandom", "os.getcwd",
           "builtins.id")
SEEDED = ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "random.Random",
          "numpy.random.PCG64", "numpy.random.SeedSequence")
# calls that change the interpreter or a library for everybody
SETTERS = ("numpy.seterr", "numpy.seterrcall", "numpy.random.seed", "numpy.random.set_state", "random.seed", "os.chdir", "os.putenv",
           "os.unsetenv", "sys.setrecursionlimit", "numpy.set_printoptions", "locale.setlocale", "pyvista.set_plot_theme",
           "numpy.setbufsize")
CACHES = ("lru_cache", "cache", "cached_property")


class Shared:
    """What outlives a call: objects made while the modules are loaded (tables, default arguments, class attributes)."""

    def __init__(self, ip):
        self.objs = {k[1] for k in ip.base.heap if k[0] == "obj"}
        self.names = {}
        arrays = {}
        for name, m in ip.mods.items():
            for k, v in ip.base.envs[m.fid].items():
                if v.op == "obj":
                    self.names.setdefault(v, f"{name}.{k}")
                elif v.op in ("call", "un", "bin", "store", "index"):
                    arrays.setdefault(v, f"{name}.{k}")
        for q, c in ip.classes.items():
            for k, v in c.members.items():
                if isinstance(v, Term) and v.op == "obj":
                    self.names.setdefault(v, f"{q}.{k}")
        for f in {v for m in ip.mods.values() for v in ip.base.envs[m.fid].values() if v.op == "func"} | {
                v for c in ip.classes.values() for v in c.members.values() if isinstance(v, Term) and v.op == "func"}:
            for d in [*f.args[1], *f.args[2]]:
                if isinstance(d, Term) and d.op == "obj":
                    self.names.setdefault(d, f"default argument of {f.args[0]}")
        self.arrays = arrays

    def of(self, t, made=()):
        if t in self.objs:
            return self.names.get(t, show(t))
        if t in self.arrays and t not in made:
            return self.arrays[t]
        return None


def grows(fn, name):
    """The function computes the new value of a module variable from its old one."""
    for n in ast.walk(fn):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            return True
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets) and any(
                isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.value)):
            return True
    return False


def required(ip, t):
    """Parameters without a default (the others are left out)."""
    f = ip.func_of(ip.find_member(t.args[0], "__init__")) if t.op == "cls" else ip.func_of(t)
    return {p for p, _, d, _ in api.params_of(f) if d} if f is not None else set()


def parts(k):
    out = {k}
    if k.op == "tuple":
        for x in k.args:
            out |= parts(x)
    return out


def determined(key, value):
    """The stored value is a function of its key alone."""
    ps = parts(key)
    stack, seen = [value], set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen or x in ps:
            continue
        seen.add(x)
        if x.op in ("sym", "obj", "mu", "elem", "idx"):
            return False
        stack.extend(x.args)
    return True


def closure(ip, r, roots):
    """Every term the given values are computed from (contents of objects and loop variables included)."""
    heap = r.final.heap if r.final is not None else {}
    stack, seen = list(roots), set()
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, list)):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if x.op == "mu":
            stack.extend(ip.mu_next.get(x, ()))
        for k in ("obj", "arr"):
            v = heap.get((k, x))
            if v is not None:
                stack.append(v)
        stack.extend(x.args)
    return seen


def result_cells(r, value):
    """The value and what is stored on it."""
    out = [value]
    for k, v in r.final.heap.items():
        if k[0] in ("attr", "item", "gen") and isinstance(k[1], Term):
            b = k[1]
            while b.op == "attr":
                b = b.args[0]
            if b is value:
                out.append(v)
    return out


def varying(t):
    """The name of a source of varying values, for a call or a read of one."""
    if t.op == "call" and t.args[0].op == "glob":
        n = t.args[0].args[0]
        if n in SEEDED:
            given = [a for a in t.args[1]] + [v for k, v in t.args[2]]
            return None if given and not any(a.op == "const" and a.args[0] is None for a in given) else n
        if n.startswith(VARYING):
            return n
    if t.op == "glob" and t.args[0].startswith(("os.environ",)):
        return t.args[0]
    return None


def review(rep, ip, sh, r, label, values):
    rep.saw(r)
    made = {e.term for e in r.events if e.kind == "call"}
    memo = []
    for e in r.events:
        where, fn = e.loc, e.fn.split("pvgridder.")[-1]
        if e.kind == "global":
            v = e.extra["value"]
            if determined(mk("const", None), v) and not grows(e.node, e.term.args[0]):
                continue  # the same constant in every call
            rep.bad(f"{label}:{fn}:global", where, f"{label}: {fn} rebinds the module variable {e.term.args[0]}")
        elif e.kind == "call":
            n = e.term.args[0].args[0] if e.term.op == "call" and e.term.args[0].op == "glob" else ""
            if n in SETTERS:
                rep.bad(f"{label}:{fn}:{n}", where, f"{label}: {fn} calls {n}, which changes every later call")
        elif e.kind == "mutate":
            t = e.term
            if t.op in ("func", "cls") or t.op == "glob":
                rep.bad(f"{label}:{fn}:attribute", where, f"{label}: {fn} writes on {show(t)}, which all calls share")
                continue
            if t.op == "attr" and _root(t).op in ("glob", "cls", "func"):
                rep.bad(f"{label}:{fn}:attribute", where, f"{label}: {fn} writes on {show(t)}, which all calls share")
                continue
            own = alias.touched(ip, e, stops=tuple(sh.arrays)) | {t}
            for o in own:
                n = sh.of(o, made)
                if n is None or not e.extra.get("sure", True):
                    continue
                k = e.extra.get("key") or ("",)
                v = e.extra.get("value")
                if k[0] == "item" and len(k) > 1 and isinstance(k[1], Term) and isinstance(v, Term) and determined(k[1], v):
                    memo.append((v, n))
                    continue
                rep.bad(f"{label}:{fn}:{n}", where, f"{label}: {fn} modifies {n}, which outlives the call ({e.extra.get('how')})")
    if r.final is None:
        return
    saved, ip.st = ip.st, State(dict(r.final.envs), r.final.heap, ())
    try:
        stops = tuple(sh.arrays) + tuple(v for v, _ in memo)
        for value in values:
            if value is None:
                continue
            for c in result_cells(r, value):
                for o in alias.owners(ip, c, "shell", stops=stops) | alias.owners(ip, c, "elem", stops=stops):
                    n = sh.of(o, made) or next((n for v, n in memo if v is o), None)
                    if n is not None:
                        rep.bad(f"{label}:returns:{n}", label, f"{label}: the result shares storage with {n}, which later calls use")
            for t in closure(ip, r, result_cells(r, value)):
                n = varying(t)
                if n is not None:
                    rep.bad(f"{label}:{n}", label, f"{label}: the result depends on {n}")
    finally:
        ip.st = saved


def _root(t):
    while t.op == "attr":
        t = t.args[0]
    return t


def cached(ip):
    """Functions whose results are kept: {Func: decorator}."""
    out = {}
    for f in set(ip.funcs.values()):
        for d in getattr(f, "decos", ()):
            if d.split(".")[-1] in CACHES:
                out[f] = d
    return out


def run(rep, ip, tier):
    """Effect analysis of every public call: writes to anything that outlives the call, results that share storage with it,
    results that depend on random numbers, the clock or the environment, and cached functions."""
    rep.rule("no write of a public call reaches a module table, class attribute, default argument, function attribute or library "
             "setting (a table filled with values determined by their key is allowed); no result shares storage with them")
    rep.rule("no result is computed from a random number without a fixed seed, the clock or the environment")
    rep.rule("results of cached functions are never modified or handed out, and cached methods only read what never changes")
    sh = Shared(ip)
    kept = cached(ip)
    fs = api.functions(ip)
    if len(fs) < 30:
        raise Broken(f"public functions found: {len(fs)}")
    plain = {f.qual.split(".")[-1] for f in kept if f.cls is None}
    for n, f in sorted(fs.items()):
        src, ps = api.entry(ip, f)
        r = ip.run(f"{n}({src})", ps)
        review(rep, ip, sh, r, n, [r.value])
        src2, ps2 = api.entry(ip, f, skip=required(ip, f))
        if src2 != src:
            r2 = ip.run(f"{n}({src2})", ps2)
            review(rep, ip, sh, r2, n, [r2.value])
        if plain:
            caches(rep, ip, sh, ip.run(f"{n}({src})", ps, opaque=tuple(plain)), n, plain)
            if n.split(".")[-1] in plain and (ip.types(r.value) if r.value is not None else None) is not None \
                    and not ip.types(r.value) <= X.IMMUTABLE:
                rep.bad(f"{n}:cached", n, f"{n}: the same object is handed out to every caller (its result is cached)")
        rep.ok(n)
    bs = api.builders(ip)
    if len(bs) < 5:
        raise Broken(f"builders found: {sorted(bs)}")
    for n, ms in sorted(bs.items()):
        for m in [x for x in ms if x != "generate_mesh"]:
            steps = ([m, m] if m.startswith("add") else ["add", "add", m])
            steps = [s for s in steps if s in ms] + ["generate_mesh"]
            code, ps = api.script(ip, n, steps)
            r = ip.run(code, ps)
            review(rep, ip, sh, r, f"{n}.{m}", [r.env.get("m")] if r.final is not None else [])
            code2, ps2 = short(ip, n, steps)
            r2 = ip.run(code2, ps2)
            review(rep, ip, sh, r2, f"{n}.{m}", [r2.env.get("m")] if r2.final is not None else [])
            if plain:
                caches(rep, ip, sh, ip.run(code, ps, opaque=tuple(plain)), f"{n}.{m}", plain)
            rep.ok(f"{n}: {' > '.join(steps)}")
    for f, d in kept.items():
        on = [p for p, a, _, _ in api.params_of(f) if set(api.spec(a).get("types", ())) & X.MESHES]
        rep.check(not on, f"{f.qual}:key", f.qual,
                  f"{f.qual}: its result is kept ({d}) under the identity of {', '.join(on)}, which can change between calls")
        if f.cls is not None:
            method(rep, ip, f, d)
    defaults(rep, ip, sh)


def short(ip, cls, steps):
    """Driver of a builder with every optional argument left out."""
    t = ip.public()[cls]
    src, params = api.entry(ip, t, prefix="i_", skip=required(ip, t))
    code = [f"b = {cls}({src})"]
    for i, m in enumerate(steps):
        mt = ip.find_member(t.args[0], m)
        s2, p2 = api.entry(ip, mt, prefix=f"s{i}_", recv=True, skip=required(ip, mt))
        params.update(p2)
        code.append(f"{'m = ' if m == 'generate_mesh' else ''}b.{m}({s2})")
    return "\n".join(code) + "\n", params


def caches(rep, ip, sh, r, label, plain):
    """Results of cached functions: never modified, never part of what the caller gets."""
    calls = set()
    pool = [e.term for e in r.events] + ([r.value] if isinstance(r.value, Term) else []) + list(r.env.values())
    pool += list(r.final.heap.values()) if r.final is not None else []
    for t in pool:
        if isinstance(t, Term):
            for x in subterms(t):
                if x.op == "call" and x.args[0].op == "func" and x.args[0].args[0].split(".")[-1] in plain:
                    calls.add(x)
    for e in r.events:
        if e.kind == "mutate" and e.extra.get("sure"):
            for o in alias.touched(ip, e, stops=tuple(calls)):
                if o in calls:
                    rep.bad(f"{label}:{e.fn}:cached", e.loc, f"{label}: the kept result of {o.args[0].args[0]} is modified")
    if r.final is None:
        return
    saved, ip.st = ip.st, State(dict(r.final.envs), r.final.heap, ())
    try:
        for value in (r.value, r.env.get("m")):
            if isinstance(value, Term):
                for c in result_cells(r, value):
                    for o in alias.owners(ip, c, "shell", stops=tuple(calls)) | alias.owners(ip, c, "elem", stops=tuple(calls)):
                        if o in calls:
                            rep.bad(f"{label}:returns:cached", label, f"{label}: the result shares storage with the kept result of {o.args[0].args[0]}")
    finally:
        ip.st = saved


def method(rep, ip, f, deco):
    """A kept value of an object: wrong as soon as what it is computed from changes."""
    reads = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"}
    writes = {}
    for c in ip.classes.values():
        for k, v in c.members.items():
            g = ip.func_of(v) if isinstance(v, Term) else None
            if g is None or g is f or k == "__init__":
                continue
            for n in ast.walk(g.node):
                t = None
                if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                    t = n
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        "append", "extend", "insert", "pop", "clear", "remove", "update", "sort"):
                    t = n.func.value
                elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                    t = n.value
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                    writes.setdefault(t.attr.lstrip("_"), k)
    hit = sorted(a for a in reads if a.lstrip("_") in writes)
    rep.check(not hit, f"{f.qual}:cached", f.qual,
              f"{f.qual}: its value is kept ({deco}) although {', '.join(hit)} changes later (in {', '.join(writes[a.lstrip('_')] for a in hit)})")


def defaults(rep, ip, sh):
    """Default arguments that are mutable are listed; writes to them are caught in the runs above."""
    for n in sorted(set(sh.names.values())):
        rep.ok(n)
