"""Named option values: documented ones accepted and distinct, all others rejected."""
from __future__ import annotations

import ast

from .. import api
from ..canon import fingerprint
from ..report import Broken
from ..terms import Term, const, subterms

OTHER = "~no such value~"
# in which configuration the option is consulted (other values of these parameters may ignore it)
CONTEXT = {"engine": {"celltype": const("triangle")}, "optimization": {"celltype": const("triangle")}}


def literals(ann):
    """String values of the Literal[...] parts of an annotation."""
    out = []
    for n in ast.walk(ann) if ann is not None else ():
        if isinstance(n, ast.Subscript) and ast.unparse(n.value).split(".")[-1] == "Literal":
            for c in ast.walk(n.slice):
                if isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value not in out:
                    out.append(c.value)
    return out


def has_none(ann):
    t = ast.unparse(ann)
    return "Optional" in t or "None" in t


# documented meaning of leaving the option out
DEFAULTS = {"constant"}


def others(vals):
    """Strings outside the documented set: an unrelated one and near misses of every documented one."""
    out = [OTHER]
    for v in vals:
        for w in (v + "~", "~" + v, v.swapcase(), v[:-1]):
            if w and w not in vals and w not in out:
                out.append(w)
    return out


def outside(c, key):
    """Oracle for a string different from every name it is compared with."""
    if c.op == "cmp" and c.args[0] in ("==", "in"):
        for a, b in ((c.args[1], c.args[2]), (c.args[2], c.args[1]))[:1 if c.args[0] == "in" else 2]:
            while a.op == "call" and a.args[0].op == "glob" and a.args[0].args[0] == "builtins.str" and len(a.args[1]) == 1:
                a = a.args[1][0]
            if a.op == "sym" and a.args[0] == key and not any(x is a for x in subterms(b)):
                return False
    return None


def delegated(r, v, sym=None):
    """The unknown value is handed to an external call (which is then in charge of rejecting it)."""
    if sym is not None:
        for ev in r.events:
            t = ev.term
            if ev.kind == "call" and t.op == "call" and not (t.args[0].op == "glob" and str(t.args[0].args[0]).startswith("builtins.")):
                if any(x is sym for a in list(t.args[1]) + [w for _, w in t.args[2]] for x in subterms(a)):
                    return True
        return False
    for ev in r.events:
        if ev.kind != "call":
            continue
        t = ev.term
        if t.op != "call":
            continue
        for a in list(t.args[1]) + [v for _, v in t.args[2]]:
            if any(x.op == "const" and isinstance(x.args[1], str) and v.lower() in x.args[1].lower() for x in subterms(a)):
                return True
        f = t.args[0]
        if f.op == "attr" and v in str(f.args[1]):
            return True
    return False


def cases(ip):
    """(label, param, values, make) with make(value) -> (code, params)."""
    for n, f in sorted(api.functions(ip).items()):
        if n.startswith("examples."):
            continue
        for p, ann, _, _ in api.params_of(ip.func_of(f)):
            vals = literals(ann)
            if not vals:
                continue

            def make(v, n=n, f=f, p=p):
                src, ps = api.entry(ip, f)
                fix(ps, p, v, p, "")
                return f"out = {n}({src})", ps

            make.optional, make.key = has_none(ann), p
            yield n, p, vals, make
    for n, ms in sorted(api.builders(ip).items()):
        for m in ["__init__"] + ms:
            t = ip.find_member(ip.public()[n].args[0], m)
            fn = ip.func_of(t) if t is not None else None
            for p, ann, _, _ in api.params_of(fn, True) if fn is not None else ():
                vals = literals(ann)
                if not vals:
                    continue
                if m in ("__init__", "generate_mesh"):
                    steps, at = ["add", "add"], 2
                elif m.startswith("add"):
                    steps, at = ["add", m], 1
                else:
                    steps, at = ["add", "add", m], 2
                steps = [s for s in steps] + ["generate_mesh"]
                pre = "i_" if m == "__init__" else f"s{at}_"

                def make(v, n=n, steps=steps, pre=pre, p=p):
                    code, ps = api.script(ip, n, steps)
                    fix(ps, pre + p, v, p, pre)
                    return code, ps

                make.optional, make.key = has_none(ann), pre + p
                yield f"{n}.{m}" if m != "__init__" else n, p, vals, make


def fix(ps, key, v, p, pre):
    for k in ps:
        if k.endswith("resolution"):
            ps[k] = {"types": ["int", "none"]}
    for k, w in CONTEXT.get(p, {}).items():
        if pre + k in ps:
            ps[pre + k] = w
    if key not in ps:
        raise Broken(f"parameter {key} not found")
    ps[key] = const(v)


def run(rep, ip, tier):
    """Each option declared with a fixed set of names is evaluated once per documented name and once with a
    name outside the set: the value graph of the call must have a normal exit for the documented ones, none for
    the other (unless the value is handed to an external call), and no two documented names may give the same graph."""
    rep.rule("a value outside the documented set has no normal exit (it is rejected or delegated to an external call)")
    rep.rule("every documented value has a normal exit")
    rep.rule("two different documented values give different value graphs")
    n = 0
    for label, p, vals, make in cases(ip):
        optional = lambda *a: make.optional  # noqa: E731
        n += 1
        prints = {}
        for v in vals:
            code, ps = make(v)
            r = ip.run(code, ps)
            rep.saw(r)
            rep.check(r.final is not None, f"{label}:{p}={v}:accepted", label,
                      f"{label}: documented value {p}={v!r} is always rejected")
            if r.final is not None:
                prints.setdefault(fingerprint(ip, r, ps), []).append(v)
        for v in ([None] if optional(label, p) else ()):
            code, ps = make(v)
            r = ip.run(code, ps)
            rep.check(r.final is not None, f"{label}:{p}=None:accepted", label, f"{label}: leaving out {p} is always rejected")
            if r.final is not None:
                hit = [x for x in prints.get(fingerprint(ip, r, ps), []) if x not in DEFAULTS]
                rep.check(not hit, f"{label}:{p}={'/'.join(hit)}:no-effect", label,
                          f"{label}: {p}={hit} has no effect (same as leaving it out)")
        for same in prints.values():
            rep.check(len(same) == 1, f"{label}:{p}:{'='.join(same)}", label,
                      f"{label}: {p} values {same} are treated the same")
        for v in others(vals):
            code, ps = make(v)
            r = ip.run(code, ps)
            rep.check(r.final is None or delegated(r, v), f"{label}:{p}:unknown-accepted", label,
                      f"{label}: value {v!r} of {p}, outside {vals}, is accepted silently")
            if r.final is not None and delegated(r, v):
                break
        else:
            key, code, ps = make.key, *make(OTHER)
            ps[key] = {"types": ["str"], "truthy": True}
            r = ip.run(code, ps, assume=lambda c: outside(c, key))
            rep.check(r.final is None or delegated(r, None, r.syms[key]), f"{label}:{p}:unknown-accepted", label,
                      f"{label}: some value of {p} outside {vals} is accepted silently")
    if n < 30:
        raise Broken(f"options found: {n}")
