"""Hash-consed value-graph terms.

A term is a node of a gated value graph (the IR the rules are queries over).  It is
built from the syntax tree by ``interp``; nothing here runs the analysed program.
"""
from __future__ import annotations

_TABLE: dict = {}


class Term:
    __slots__ = ("op", "args", "_deps")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._deps = None

    def __repr__(self):
        return show(self)


def mk(op, *args) -> Term:
    key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        t = Term(op, args)
        _TABLE[key] = t
    return t


def const(v) -> Term:
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")
DELETED = mk("deleted")
ABSENT = mk("absent")


def is_const(t, v=...):
    if not isinstance(t, Term) or t.op != "const":
        return False
    return True if v is ... else (t.args[0] == type(v).__name__ and t.args[1] == v)


def cval(t):
    return t.args[1]


def glob(name) -> Term:
    return mk("glob", name)


def is_glob(t, *names):
    return isinstance(t, Term) and t.op == "glob" and (not names or t.args[0] in names)


def not_(t):
    if t.op == "const":
        return const(not t.args[1])
    if t.op == "not":
        return t.args[0]
    if t.op == "and":
        return or_(*[not_(x) for x in t.args])
    if t.op == "or":
        return and_(*[not_(x) for x in t.args])
    if t.op == "phi" and (is_bool(t.args[1]) and is_bool(t.args[2])):
        return phi(t.args[0], not_(t.args[1]), not_(t.args[2]))
    return mk("not", t)


def _nary(op, unit, zero, ts):
    out = []
    for t in ts:
        if t.op == op:
            sub = t.args
        else:
            sub = (t,)
        for s in sub:
            if s is unit:
                continue
            if s is zero:
                return zero
            if s not in out:
                out.append(s)
    for s in out:
        if not_(s) in out if s.op in ("not",) else False:
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return mk(op, *out)


def and_(*ts):
    return _nary("and", TRUE, FALSE, ts)


def or_(*ts):
    return _nary("or", FALSE, TRUE, ts)


_BOOLOPS = {"cmp", "not", "and", "or", "isinst", "truth", "opq"}


def is_bool(t):
    return t.op in _BOOLOPS or (t.op == "const" and isinstance(t.args[1], bool)) or (
        t.op == "phi" and is_bool(t.args[1]) and is_bool(t.args[2])
    )


def restrict(t, c, val, depth=6):
    """Simplify phi nodes of *t* gated by *c*, knowing c == val."""
    if depth == 0 or t.op != "phi":
        if t is c:
            return const(val)
        return t
    g = t.args[0]
    d = decide(g, c, val)
    if d is True:
        return restrict(t.args[1], c, val, depth)
    if d is False:
        return restrict(t.args[2], c, val, depth)
    a = restrict(t.args[1], c, val, depth - 1)
    b = restrict(t.args[2], c, val, depth - 1)
    if a is t.args[1] and b is t.args[2]:
        return t
    return phi(g, a, b)


def decide(g, c, val):
    """Truth of *g* knowing c == val, or None."""
    if g is c:
        return val
    if g.op == "not":
        d = decide(g.args[0], c, val)
        return None if d is None else not d
    if c.op == "not":
        return decide(g, c.args[0], not val)
    if g.op == "and":
        ds = [decide(x, c, val) for x in g.args]
        if any(d is False for d in ds):
            return False
        if all(d is True for d in ds):
            return True
    if g.op == "or":
        ds = [decide(x, c, val) for x in g.args]
        if any(d is True for d in ds):
            return True
        if all(d is False for d in ds):
            return False
    if c.op == "and" and val is True:
        for x in c.args:
            d = decide(g, x, True)
            if d is not None:
                return d
    if c.op == "or" and val is False:
        for x in c.args:
            d = decide(g, x, False)
            if d is not None:
                return d
    return None


def phi(c, a, b):
    if c.op == "const":
        return a if c.args[1] else b
    if c.op == "not":
        return phi(c.args[0], b, a)
    if a.op == "phi":
        a = restrict(a, c, True)
    if b.op == "phi":
        b = restrict(b, c, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c if is_bool(c) else mk("truth", c)
    if a is FALSE and b is TRUE:
        return not_(c if is_bool(c) else mk("truth", c))
    if a is FALSE and is_bool(b):
        return and_(not_(c), b)
    if a is TRUE and is_bool(b):
        return or_(c, b)
    if b is FALSE and is_bool(a):
        return and_(c, a)
    if b is TRUE and is_bool(a):
        return or_(not_(c), a)
    return mk("phi", c, a, b)


def subterms(t, mu_next=None, seen=None):
    """All reachable subterms (follows mu back edges when *mu_next* is given)."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        stack.extend(x.args)
        if mu_next is not None and x.op == "mu":
            stack.extend(mu_next.get(x, ()))
    return seen


def show(t, depth=5):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    if depth == 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.args
    if o == "const":
        return repr(a[1])
    if o in ("param", "glob", "func", "cls", "sym"):
        return str(a[0])
    if o == "attr":
        return f"{show(a[0], depth)}.{a[1]}"
    if o == "index":
        return f"{show(a[0], depth)}[{show(a[1], d)}]"
    if o == "slice":
        return ":".join("" if is_const(x, None) else show(x, d) for x in a)
    if o == "call":
        kw = [f"{k}={show(v, d)}" for k, v in a[2]]
        return f"{show(a[0], depth)}({', '.join([show(x, d) for x in a[1]] + kw)})"
    if o == "bin":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if o == "cmp":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if o == "phi":
        return f"φ({show(a[0], d)} ? {show(a[1], d)} : {show(a[2], d)})"
    if o == "mu":
        return f"μ{a[1]}"
    if o == "elem":
        return f"elem({show(a[0], d)})"
    return f"{o}({', '.join(show(x, d) for x in a)})"
