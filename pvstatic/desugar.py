"""Rewrites match statements into if chains, and counting while loops into for loops, before analysis."""
from __future__ import annotations

import ast


class Unsupported(Exception):
    pass


def _copy(e):
    return ast.parse(ast.unparse(e), mode="eval").body


def _test(pat, subj):
    """(test expression or None for always, [(name, expression)])"""
    if isinstance(pat, ast.MatchValue):
        return ast.Compare(_copy(subj), [ast.Eq()], [pat.value]), []
    if isinstance(pat, ast.MatchSingleton):
        return ast.Compare(_copy(subj), [ast.Is()], [ast.Constant(pat.value)]), []
    if isinstance(pat, ast.MatchOr):
        ts = []
        for p in pat.patterns:
            t, b = _test(p, subj)
            if b:
                raise Unsupported
            if t is None:
                return None, []
            ts.append(t)
        return ast.BoolOp(ast.Or(), ts), []
    if isinstance(pat, ast.MatchAs):
        t, b = _test(pat.pattern, subj) if pat.pattern is not None else (None, [])
        if pat.name is not None:
            b = b + [(pat.name, _copy(subj))]
        return t, b
    if isinstance(pat, ast.MatchClass) and not pat.patterns:
        ts = [ast.Call(ast.Name("isinstance", ast.Load()), [_copy(subj), pat.cls], [])]
        bs = []
        for k, p in zip(pat.kwd_attrs, pat.kwd_patterns):
            t, b = _test(p, ast.Attribute(_copy(subj), k, ast.Load()))
            if t is not None:
                ts.append(t)
            bs += b
        return (ts[0] if len(ts) == 1 else ast.BoolOp(ast.And(), ts)), bs
    if isinstance(pat, ast.MatchSequence) and not any(isinstance(p, ast.MatchStar) for p in pat.patterns):
        n = len(pat.patterns)
        ts, bs = [], []
        if not isinstance(subj, ast.Tuple):
            ts.append(ast.Compare(ast.Call(ast.Name("len", ast.Load()), [_copy(subj)], []), [ast.Eq()], [ast.Constant(n)]))
        elif len(subj.elts) != n:
            return ast.Constant(False), []
        for i, p in enumerate(pat.patterns):
            e = subj.elts[i] if isinstance(subj, ast.Tuple) else ast.Subscript(_copy(subj), ast.Constant(i), ast.Load())
            t, b = _test(p, e)
            if t is not None:
                ts.append(t)
            bs += b
        if not ts:
            return None, bs
        return (ts[0] if len(ts) == 1 else ast.BoolOp(ast.And(), ts)), bs
    raise Unsupported


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_Match(self, s):
        self.generic_visit(s)
        pre = []
        subj = s.subject
        if isinstance(subj, ast.Tuple):
            elts = []
            for e in subj.elts:
                if not isinstance(e, (ast.Name, ast.Constant)):
                    self.n += 1
                    nm = f"_match_{self.n}"
                    pre.append(ast.Assign([ast.Name(nm, ast.Store())], e))
                    e = ast.Name(nm, ast.Load())
                elts.append(e)
            subj = ast.Tuple(elts, ast.Load())
        elif not isinstance(subj, ast.Name):
            self.n += 1
            nm = f"_match_{self.n}"
            pre.append(ast.Assign([ast.Name(nm, ast.Store())], subj))
            subj = ast.Name(nm, ast.Load())
        tail = []
        try:
            for c in reversed(s.cases):
                t, bs = _test(c.pattern, subj)
                binds = [ast.Assign([ast.Name(n, ast.Store())], e) for n, e in bs]
                if c.guard is not None:
                    if bs:
                        if t is not None or tail:
                            raise Unsupported
                    t = c.guard if t is None else ast.BoolOp(ast.And(), [t, c.guard])
                body = (binds if c.guard is None else []) + c.body
                if c.guard is not None and binds:
                    tail = binds + [ast.If(t, body, tail)]
                elif t is None:
                    tail = body
                else:
                    tail = [ast.If(t, body, tail)]
        except Unsupported:
            return s
        out = pre + (tail or [ast.Pass()])
        for o in out:
            for n in ast.walk(o):
                if not hasattr(n, "lineno"):
                    ast.copy_location(n, s)
            ast.fix_missing_locations(o)
        return out


def _assigned(body):
    """Names that are bound, deleted or have an item stored or a method called in *body*."""
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                out.add(n.id)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and not isinstance(n.ctx, ast.Load):
                out |= {m.id for m in ast.walk(n.value) if isinstance(m, ast.Name)}
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if isinstance(n.func.value, ast.Name):
                    out.add(n.func.value.id)
            elif isinstance(n, (ast.FunctionDef, ast.Global, ast.Nonlocal)):
                out |= set(getattr(n, "names", [n.name] if hasattr(n, "name") else []))
    return out


def _jumps(body, kind):
    """Whether a statement of this kind belongs to the loop whose body is *body*."""
    for s in body:
        if isinstance(s, kind):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if _jumps(s.orelse, kind):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if _jumps(getattr(s, f, []), kind):
                return True
        for h in getattr(s, "handlers", []):
            if _jumps(h.body, kind):
                return True
    return False


def _step(s, i):
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == i:
        v = s.value
    elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i \
            and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        l, r = s.value.left, s.value.right
        if isinstance(l, ast.Name) and l.id == i:
            v = r
        elif isinstance(r, ast.Name) and r.id == i:
            v = l
        else:
            return False
    else:
        return False
    return isinstance(v, ast.Constant) and v.value == 1 and not isinstance(v.value, bool)


class Count(ast.NodeTransformer):
    """`i = a; while i < n: ...; i += 1` into `for i in range(a, n): ...` where i is used by the loop alone and n is the
    same at every test."""

    def visit_FunctionDef(self, f):
        self.fn, old = f, getattr(self, "fn", None)
        self.generic_visit(f)
        self.fn = old
        return f

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list):
                setattr(node, f, self.block(b))
        return node

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.While):
                r = self.loop(s, out)
                if r is not None:
                    s = r
            out.append(s)
        return out

    def loop(self, s, before):
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, r, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, ast.Gt):
            l, r, op = r, l, ast.Lt()
        if not (isinstance(op, ast.Lt) and isinstance(l, ast.Name)):
            return None
        i = l.id
        ks = [k for k, x in enumerate(s.body) if _step(x, i)]
        if len(ks) != 1 or _jumps(s.body, ast.Continue):
            return None
        rest = s.body[:ks[0]] + s.body[ks[0] + 1:]
        changed = _assigned(rest)
        names = {n.id for n in ast.walk(r) if isinstance(n, ast.Name)}
        if i in changed or names & changed or i in names:
            return None
        if any(isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == "len") for n in ast.walk(r)):
            return None
        if any(isinstance(n, ast.Attribute) for n in ast.walk(r)) and any(
                isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load) for x in rest for n in ast.walk(x)):
            return None
        if any(isinstance(n, ast.Name) and n.id == i for x in s.body[ks[0] + 1:] for n in ast.walk(x)):
            return None
        if not rest or not before:
            return None
        # the start: the last binding before the loop
        start = None
        for b in reversed(before):
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id == i:
                start = b
                break
            if any(isinstance(n, ast.Name) and n.id == i for n in ast.walk(b)):
                return None
        if start is None or not isinstance(start.value, (ast.Constant, ast.Name)):
            return None
        inside = sum(isinstance(n, ast.Name) and n.id == i for n in ast.walk(s))
        other = sum(isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Load) for n in ast.walk(self.fn)) if getattr(self, "fn", None) else 10 ** 6
        mine = sum(isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Load) for n in ast.walk(s))
        if other != mine or not inside:
            return None
        if isinstance(start.value, ast.Constant):
            args = [r] if start.value.value == 0 else [start.value, r]
        else:
            args = [ast.Name(i, ast.Load()), r]
        f = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ast.Load()), args, []), rest, [])
        ast.copy_location(f, s)
        for n in ast.walk(f):
            if not hasattr(n, "lineno"):
                ast.copy_location(n, s)
        return ast.fix_missing_locations(f)


class Index(ast.NodeTransformer):
    """`s = list(x); for i in range(len(s)): ... s[i] ...` into `for i, v in enumerate(s): ... v ...` where neither s nor i is
    changed by the loop."""

    def __init__(self):
        self.n = 0

    def visit_FunctionDef(self, f):
        old = getattr(self, "fn", None)
        self.fn = f
        self.generic_visit(f)
        self.fn = old
        return f

    def visit_For(self, s):
        self.generic_visit(s)
        r = s.iter
        if getattr(self, "fn", None) is None or not isinstance(s.target, ast.Name):
            return s
        if not (isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "range" and len(r.args) == 1 and not r.keywords):
            return s
        c = r.args[0]
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "len" and len(c.args) == 1
                and isinstance(c.args[0], ast.Name)):
            return s
        i, q = s.target.id, c.args[0].id
        defs = [n for n in ast.walk(self.fn) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == q for t in n.targets)]
        stores = [n for n in ast.walk(self.fn) if isinstance(n, ast.Name) and n.id == q and not isinstance(n.ctx, ast.Load)]
        if len(stores) != len(defs) or not defs or any(a.arg == q for a in ast.walk(self.fn) if isinstance(a, ast.arg)):
            return s
        if not all(isinstance(d.value, ast.Call) and isinstance(d.value.func, ast.Name) and d.value.func.id in ("list", "tuple", "sorted")
                   for d in defs):
            return s
        if {i, q} & _assigned(s.body):
            return s
        at = lambda n: (isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == q
                        and isinstance(n.slice, ast.Name) and n.slice.id == i)
        uses = [n for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == q]
        hits = [n for b in s.body for n in ast.walk(b) if at(n)]
        if not hits or any(not isinstance(n.ctx, ast.Load) for n in hits) or len(uses) != len(hits):
            return s
        self.n += 1
        nm = f"_at_{self.n}"

        class Sub(ast.NodeTransformer):
            def visit_Subscript(self, n):
                if at(n):
                    return ast.copy_location(ast.Name(nm, ast.Load()), n)
                return self.generic_visit(n)
        body = [Sub().visit(b) for b in s.body]
        loads = sum(isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Load) for b in body for n in ast.walk(b))
        everywhere = sum(isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Load) for n in ast.walk(self.fn))
        if not everywhere and not loads:
            s.target, s.iter = ast.Name(nm, ast.Store()), ast.Name(q, ast.Load())
            b = body[0]
            if len(hits) == 1 and len(body) > 1 and isinstance(b, ast.Assign) and len(b.targets) == 1 \
                    and isinstance(b.value, ast.Name) and b.value.id == nm:
                s.target, body = body[0].targets[0], body[1:]
        else:
            s.target = ast.Tuple([ast.Name(i, ast.Store()), ast.Name(nm, ast.Store())], ast.Store())
            s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [ast.Name(q, ast.Load())], [])
        s.body = body
        for n in ast.walk(s):
            if not hasattr(n, "lineno"):
                ast.copy_location(n, r)
        return ast.fix_missing_locations(s)


def rewrite(tree):
    if any(isinstance(n, ast.While) for n in ast.walk(tree)):
        tree = ast.fix_missing_locations(Count().visit(tree))
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "range" for n in ast.walk(tree)):
        tree = ast.fix_missing_locations(Index().visit(tree))
    if not any(isinstance(n, ast.Match) for n in ast.walk(tree)):
        return tree
    return ast.fix_missing_locations(Rewrite().visit(tree))
