"""C05: the external mesher's session is opened and closed in pairs on every exit (typestate)."""
from __future__ import annotations

from .. import api
from ..report import Broken
from ..terms import const, glob, show
from .ghost import leaves

CELL = ("attr", glob("gmsh"), "session")
OPEN = const("open")


def run(rep, ip, tier):
    """C05: typestate of the mesher session over every public function that reaches it: closed on every
    normal and exceptional exit, and no mesher call is made outside an open session."""
    rep.rule("session state is not 'open' on any exit of any public function (finalize and clear assumed not to raise)")
    rep.rule("every mesher call other than initialize/clear/finalize happens with the session open")
    users = 0
    for n, f in sorted(api.functions(ip).items()):
        if n.startswith("examples."):
            continue
        src, ps = api.entry(ip, f)
        r = ip.run(f"{n}({src})", ps)
        uses = [e for e in r.events if e.kind == "call" and e.extra["f"].op == "glob"
                and e.extra["f"].args[0].startswith("gmsh.")]
        if not uses:
            continue
        users += 1
        rep.saw(r)
        exits = [(r.final, None, "normal return", None)] if r.final is not None else []
        exits += [(st, node, f"exception at {mod.rel}:{getattr(node, 'lineno', '?')}", fn)
                  for st, node, _, _, _, mod, fn in r.exc_exits if st is not None]
        for st, node, what, fn in exits:
            v = st.heap.get(CELL)
            still = v is not None and any(x is OPEN for x, _ in leaves(ip, v, st.facts))
            where = (fn or n).split("pvgridder.")[-1]
            rep.check(not still, f"{n}:session-open:{'return' if node is None else where}",
                      what if node is not None else f"pvgridder.{n}",
                      f"{n}: mesher session still open on {what}")
        for e in uses:
            name = e.extra["f"].args[0]
            if name in ("gmsh.initialize", "gmsh.clear", "gmsh.finalize", "gmsh.isInitialized", "gmsh.is_initialized"):
                continue
            v = e.heap.get(CELL)
            ok = v is not None and all(x is OPEN for x, _ in leaves(ip, v, e.facts))
            rep.check(ok, f"{n}:{name}:outside-session", e.loc, f"{name} called while the session may be closed")
    if not users:
        raise Broken("no public function reaches the mesher")
