"""Structural fingerprints of terms: equal up to object identities."""
from __future__ import annotations

from .terms import Term


class Canon:
    """Fingerprint terms of one run; loop values are followed through their update once."""

    def __init__(self, ip):
        self.ip, self.memo, self.ids = ip, {}, {}
        self.active = set()

    def name(self, kind, x):
        return (kind,) if x is None else (kind, self.ids.setdefault(x, len(self.ids)))

    def of(self, t):
        if isinstance(t, tuple):
            if len(t) == 2 and isinstance(t[0], str) and isinstance(t[1], int):
                return t[0]  # a site identifier
            return tuple(self.of(x) for x in t)
        if not isinstance(t, Term):
            return t if isinstance(t, (str, float, bool, type(None))) else "id" if isinstance(t, int) else str(type(t))
        h = self.memo.get(t)
        if h is not None:
            return h
        if t in self.active:
            return "cycle"
        self.active.add(t)
        try:
            if t.op == "obj":
                r = ("obj", str(t.args[0]))
                c = self.ip.st.heap.get(("obj", t)) if self.ip.st is not None else None
                if c is not None:
                    r += (self.of(c),)
            elif t.op == "mu":
                r = ("mu",) + tuple(self.of(x) for x in self.ip.mu_next.get(t, ()))
            elif t.op in ("idx", "opaque", "fresh"):
                r = (t.op,)
            elif t.op == "const":
                r = ("const",) + t.args
            elif t.op == "closure":
                r = ("closure", str(t.args[0]))
            else:
                r = (t.op,) + tuple(self.of(x) for x in t.args)
        finally:
            self.active.discard(t)
        h = hash(r)
        self.memo[t] = h
        return h


def fingerprint(ip, r, skip=()):
    """Fingerprint of everything a run produces: results, calls and writes."""
    ip.st = r.final
    c = Canon(ip)
    out = [c.of(v) for k, v in sorted(r.env.items()) if isinstance(v, Term) and k not in skip]
    for ev in r.events:
        if ev.kind in ("call", "mutate"):
            f = ev.extra.get("f")
            out.append((ev.kind, c.of(ev.term) if isinstance(ev.term, Term) else None, c.of(f) if f is not None else None))
    for k, v in r.final.heap.items():
        if k[0] in ("attr", "item") and isinstance(v, Term):
            out.append((k[0], c.of(v)))
    return hash(tuple(sorted(map(str, out))))
