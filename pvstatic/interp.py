"""Abstract interpreter building the gated value graph of the analysed package.

The interpreter walks syntax trees (inlining calls that resolve inside the package),
keeps an abstract store that maps variables and heap cells to value-graph terms, joins
states at control-flow merges with gated phi terms, and summarises loops with mu terms.
It records *events* (stores, external calls, raises, returns).  No analysed code runs.
"""
from __future__ import annotations

import ast
import sys

from .modules import PKG, Sources, assigned_names
from .terms import (
    ABSENT, DELETED, FALSE, NONE, TRUE, UNDEF, Term, and_, const, cval, decide, glob,
    is_const, is_glob, mk, not_, or_, phi, restrict,
)
from . import extmodel as X
from .fold import Fails, Unknown

sys.setrecursionlimit(20000)

MAXDEPTH = 40
UNROLL = 16
STEPS = 64   # iterations of a while loop with decided conditions


class DeadPath(Exception):
    pass


class Budget(Exception):
    pass


class State:
    __slots__ = ("envs", "heap", "facts")

    def __init__(self, envs, heap, facts):
        self.envs, self.heap, self.facts = envs, heap, facts

    def copy(self):
        return State(dict(self.envs), dict(self.heap), self.facts)

    def with_fact(self, c, v):
        s = self.copy()
        s.facts = s.facts + ((c, v),)
        return s


class Ev:
    __slots__ = ("kind", "term", "node", "mod", "fn", "facts", "loops", "heap", "extra", "stack")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))

    @property
    def loc(self):
        return f"{self.mod.rel}:{getattr(self.node, 'lineno', '?')}"

    def __repr__(self):
        return f"<{self.kind} {self.loc} in {self.fn}: {self.term!r}>"


class Func:
    def __init__(self, qual, node, mod, cls=None, kind="func", decos=()):
        self.qual, self.node, self.mod, self.cls, self.kind = qual, node, mod, cls, kind
        self.decos = decos
        if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
            self.locals, self.nonlocals = assigned_names(node)
        body = node.body if isinstance(node.body, list) else []
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for s in body for n in own_walk(s))


class Cls:
    def __init__(self, qual, node, mod, bases):
        self.qual, self.node, self.mod, self.bases = qual, node, mod, bases
        self.members = {}
        self.setters = {}
        self.abstract = False


class Frame:
    __slots__ = ("fid", "func", "mod", "parent", "returns", "yield_cb", "yield_obj", "depth", "selfcls", "name")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


class Mod:
    def __init__(self, src, rel):
        self.src, self.name, self.rel = src, src.name, rel
        self.fid = ("mod", src.name)


def own_walk(n):
    """Walk statements without entering nested function scopes."""
    yield n
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for c in ast.iter_child_nodes(n):
        yield from own_walk(c)


CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
          ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
          ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
          ast.LShift: "<<", ast.RShift: ">>"}


def fresh_list(e):
    return isinstance(e, ast.List) and not e.elts or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "list" and not e.args


class Interp:
    def __init__(self, repo=None, budget=400000):
        self.sources = Sources(repo)
        self.funcs, self.classes, self.mods = {}, {}, {}
        self.mu_next, self.loops, self.sym_info = {}, {}, {}
        self.nested, self.loop_val, self.depends = set(), {}, {}
        self.uids, self.uid_info = {}, []
        self.events, self.muted = [], 0
        self.trys, self.exc_exits = [], []
        self.catch_key = []
        self.opaque_fns = frozenset()
        self.frames, self.loopstack, self.itpath = [], [], ()
        self.ctx = 0
        self.budget, self.steps = budget, 0
        self.st = State({}, {}, ())
        self.assume = None  # optional oracle: term -> True/False/None
        self.expand = None  # optional: iterable -> its elements in a scene of known data
        self.notes = []
        self.analysed = set()
        self.resolving = set()
        self._frame_meta = {}
        self.breaks, self.continues = [], []
        for name in self.sources.modules:
            self.load(name)
        self.base = self.st.copy()
        self.base_events = list(self.events)
        self.events = []

    # ------------------------------------------------------------------ modules
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        src = self.sources.modules[name]
        m = Mod(src, self.sources.rel(src.path))
        self.mods[name] = m
        saved = (self.frames, self.trys, self.loopstack)
        self.frames, self.trys, self.loopstack = [], [], []
        self.st.envs[m.fid] = {"__name__": const(name)}
        fr = Frame(fid=m.fid, func=None, mod=m, parent=None, returns=[], depth=0, name="<module>")
        self.frames.append(fr)
        try:
            self.block(src.tree.body)
        except DeadPath:
            pass
        self.frames, self.trys, self.loopstack = saved
        return m

    def mod_env(self, name):
        return self.st.envs[self.mods[name].fid]

    def public(self):
        """Public API: {name: term} of package-level functions and classes."""
        env = self.base.envs[self.mods[PKG].fid]
        out = {}
        for k, v in env.items():
            if not k.startswith("_") and v.op in ("func", "cls"):
                out[k] = v
        ex = PKG + ".examples"
        if ex in self.mods:
            for k, v in self.base.envs[self.mods[ex].fid].items():
                if not k.startswith("_") and v.op in ("func", "cls"):
                    out["examples." + k] = v
        return out

    def import_from(self, node):
        m = self.frame.mod
        if node.level:
            base = m.src.package.split(".")
            if node.level > 1:
                base = base[: -(node.level - 1)]
            modname = ".".join(base + ([node.module] if node.module else []))
        else:
            modname = node.module
        for al in node.names:
            if modname in self.sources.modules:
                self.load(modname)
                if al.name == "*":
                    env = self.mod_env(modname)
                    for k, v in list(env.items()):
                        if not k.startswith("_"):
                            self.set_name(k, v)
                    continue
                sub = modname + "." + al.name
                env = self.mod_env(modname)
                if al.name in env:
                    v = env[al.name]
                elif sub in self.sources.modules:
                    self.load(sub)
                    v = mk("module", sub)
                else:
                    v = glob(f"{modname}.{al.name}")
            else:
                v = glob(X.canon_glob(f"{modname}.{al.name}"))
            self.set_name(al.asname or al.name, v)

    # ------------------------------------------------------------------ helpers
    @property
    def frame(self):
        return self.frames[-1]

    def uid(self, node):
        key = (self.ctx, self.frame.mod.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
               getattr(node, "end_col_offset", 0), getattr(node, "end_lineno", 0), type(node).__name__, self.itpath)
        u = self.uids.get(key)
        if u is None:
            u = len(self.uid_info)
            self.uids[key] = u
            self.uid_info.append((self.frame.mod, getattr(node, "lineno", 0), self.fname(), tuple(self.loopstack)))
        return u

    def fname(self):
        for f in reversed(self.frames):
            if f.func is not None and not f.func.qual.endswith("<lambda>"):
                return f.func.qual
        return self.frame.name or "<module>"

    def opaque(self, tag, node):
        return mk("opaque", tag, self.uid(node))

    def opq(self, tag, node):
        return mk("opq", tag, self.uid(node))

    def emit(self, kind, term, node, **extra):
        if self.muted:
            return
        self.events.append(Ev(kind=kind, term=term, node=node, mod=self.frame.mod, fn=self.fname(),
                              facts=self.st.facts, loops=tuple(self.loopstack), heap=dict(self.st.heap), extra=extra,
                              stack=tuple(f.func.qual for f in self.frames if f.func is not None)))

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    # ------------------------------------------------------------------ types
    type_hook = None      # types of terms only the caller knows
    track_center = False  # center and bounds of a mesh follow writes to its points
    track_coords = False  # x, y, z of a structured grid follow writes to its points

    def types(self, t, depth=12):
        """Possible type tags of *t*, or None when unknown."""
        if depth == 0:
            return None
        r = self._types(t, depth - 1)
        if r is None and self.type_hook is not None:
            r = self.type_hook(t)
        for g, v in self.st.facts if self.st else ():
            if g.op == "isinst" and g.args[0] is t:
                s = X.expand_types(g.args[1])
                if v:
                    r = frozenset(s) if r is None else (frozenset(r & s) or frozenset(s))
                elif r is not None:
                    r = frozenset(r - s)
            elif r is not None and g.op == "cmp" and g.args[0] == "is" and g.args[1] is t and g.args[2] is NONE:
                if not v:
                    r = frozenset(r - {"none"}) or r
                elif "none" in r:
                    r = frozenset({"none"})
        return r

    def _types(self, t, d):
        o = t.op
        if o == "const":
            return frozenset({X.CONST_TYPES.get(t.args[0], t.args[0])})
        if o in ("sym", "param"):
            i = self.sym_info.get(t)
            return i.get("types") if i else None
        if o == "phi":
            a, b = self.types(t.args[1], d), self.types(t.args[2], d)
            return None if a is None or b is None else a | b
        if o == "tuple":
            return frozenset({"tuple"})
        if o in ("list", "comp", "append", "concat"):
            return frozenset({"list"})
        if o == "obj":
            k = t.args[0]
            return frozenset({k}) if k in ("list", "dict", "set") else frozenset({"obj"})
        if o in ("dict", "dictset"):
            return frozenset({"dict"})
        if o in ("closure", "func", "bmeth", "partial"):
            return frozenset({"callable"})
        if o == "cls":
            return frozenset({"type", "callable"})
        if o in ("cmp", "not", "and", "or", "isinst", "truth"):
            return None if o in ("cmp", "not") else frozenset({"bool"})
        if o == "store":
            return self.types(t.args[0], d)
        if o == "mu":
            n = self.mu_next.get(t)
            return self.types(n[0], d) if n and n[0] is not ABSENT else None
        if o == "idx":
            return frozenset({"int"})
        if o == "slice":
            return frozenset({"slice"})
        if o == "fstr":
            return frozenset({"str"})
        if o == "attr":
            return X.attr_types(self, t, d)
        if o == "index":
            return X.index_types(self, t, d)
        if o == "call":
            return X.call_types(self, t, d)
        if o in ("bin", "un"):
            ts = [self.types(x, d) for x in t.args[1:]]
            if any(x is not None and x == {"ndarray"} for x in ts):
                return frozenset({"ndarray"})
            if all(x is not None and x <= {"int", "bool"} for x in ts) and t.args[0] != "/":
                return frozenset({"int"})
            if all(x is not None and x <= {"int", "float", "bool"} for x in ts):
                return frozenset({"float"})
            if o == "bin" and t.args[0] in ("+", "%", "*") and any(x == {"str"} for x in ts):
                return frozenset({"str"})
            return None
        return None

    def is_none(self, t):
        ts = self.types(t)
        if ts is None:
            return None
        if ts == {"none"}:
            return True
        if "none" not in ts:
            return False
        return None

    # ------------------------------------------------------------------ truth
    def truth(self, t):
        if t.op == "const":
            return const(bool(cval(t)))
        if t.op in ("cmp", "not", "and", "or", "isinst", "truth", "opq"):
            return t
        if t.op == "phi":
            return phi(t.args[0], self.truth(t.args[1]), self.truth(t.args[2]))
        if t.op in ("closure", "func", "cls", "bmeth", "module", "glob"):
            return TRUE
        if t.op in ("tuple", "list"):
            if not any(isinstance(x, Term) and x.op == "star" for x in t.args):
                return const(len(t.args) > 0)
        if t.op == "obj":
            if t.args[0] in ("list", "dict", "set"):
                c = self.st.heap.get(("obj", t), None)
                if c is not None and c.op in ("list", "dict", "tuple") and not any(
                    isinstance(x, Term) and x.op == "star" for x in c.args
                ):
                    return const(len(c.args) > 0)
                if c is not None and c.op in ("append", "dictset"):
                    return TRUE
            else:
                return TRUE
        if X.is_data_container(t) and any(
            k[0] == "item" and k[1] is t and k[2].op == "const" and v is not DELETED and v.op not in ("phi", "absent")
            for k, v in self.st.heap.items()
        ):
            return TRUE
        ts = self.types(t)
        if ts is not None:
            if ts == {"none"}:
                return FALSE
            if ts <= X.ALWAYS_TRUE:
                return TRUE
        if t.op == "call" and is_glob(t.args[0], "builtins.bool") and t.args[1]:
            return self.truth(t.args[1][0])
        i = self.sym_info.get(t)
        if i and i.get("truthy") is not None:
            return const(i["truthy"])
        return mk("truth", t)

    def decide(self, c):
        if c.op == "const":
            return bool(cval(c))
        if self.assume is not None:
            r = self.assume(c)
            if r is not None:
                return r
        for g, v in reversed(self.st.facts):
            d = decide(c, g, v)
            if d is not None:
                return d
            d = X.imply(c, g, v)
            if d is not None:
                return d
        if c.op == "not":
            d = self.decide(c.args[0])
            return None if d is None else not d
        if c.op == "and":
            ds = [self.decide(x) for x in c.args]
            if any(d is False for d in ds):
                return False
            if all(d is True for d in ds):
                return True
        if c.op == "or":
            ds = [self.decide(x) for x in c.args]
            if any(d is True for d in ds):
                return True
            if all(d is False for d in ds):
                return False
        if c.op == "isinst":
            ts = self.types(c.args[0])
            if ts is not None:
                s = X.expand_types(c.args[1])
                if ts <= s:
                    return True
                if not (ts & s):
                    return False
        if c.op == "cmp" and c.args[0] == "is" and c.args[2] is NONE:
            return self.is_none(c.args[1])
        return None

    def branch(self, c, fa, fb):
        """Run *fa* where c holds and *fb* where it does not; join states and values."""
        d = self.decide(c)
        if d is True:
            return fa()
        if d is False:
            return fb()
        base = self.st
        if c.op == "or" and not any(x.op == "and" for x in c.args):
            pass
        self.st = base.with_fact(c, True)
        try:
            va = fa()
            sa = self.st
        except DeadPath:
            va, sa = None, None
        self.st = base.with_fact(c, False)
        try:
            vb = fb()
            sb = self.st
        except DeadPath:
            vb, sb = None, None
        if sa is None and sb is None:
            self.st = None
            raise DeadPath()
        if sb is None:
            self.st = sa
            return va
        if sa is None:
            self.st = sb
            return vb
        self.st = self.join(c, sa, sb)
        if va is None or vb is None:
            return None
        return phi(c, va, vb)

    def join(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        envs = {}
        for fid in set(a.envs) | set(b.envs):
            ea, eb = a.envs.get(fid), b.envs.get(fid)
            if ea is eb or eb is None:
                envs[fid] = ea
            elif ea is None:
                envs[fid] = eb
            else:
                e = {}
                for k in {**ea, **eb}:
                    x, y = ea.get(k, UNDEF), eb.get(k, UNDEF)
                    e[k] = x if x is y else phi(c, x, y)
                envs[fid] = e
        heap = {}
        for k in {**a.heap, **b.heap}:
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None:
                x = self.default(k)
            if y is None:
                y = self.default(k)
            heap[k] = x if x is y else phi(c, x, y)
        n = 0
        for fa_, fb_ in zip(a.facts, b.facts):
            if fa_ != fb_:
                break
            n += 1
        return State(envs, heap, a.facts[:n])

    @staticmethod
    def default(k):
        """Initial content of heap cell *k* (what a read yields before any write)."""
        if k[0] == "arr":
            return k[1]
        if k[0] == "attr":
            return mk("attr", k[1], k[2])
        if k[0] == "item":
            return mk("index", k[1], k[2])
        return ABSENT

    # ------------------------------------------------------------------ names
    def lookup(self, name, fid=None):
        fr = self.frame
        chain = []
        f = fr
        # lexical chain: frame -> parent frame id -> ... -> module
        env_ids = []
        func = fr.func
        fid = fr.fid
        meta = self.frame_meta
        while True:
            env_ids.append(fid)
            nxt = meta.get(fid)
            if nxt is None:
                break
            fid = nxt
        for i, e in enumerate(env_ids):
            env = self.st.envs.get(e)
            if env is not None and name in env and env[name] is not UNDEF:
                return env[name]
            if env is not None and name in env and i == 0:
                return env[name]
        b = X.BUILTINS
        if name in b:
            return glob("builtins." + name)
        return UNDEF if not chain else UNDEF

    @property
    def frame_meta(self):
        return self._frame_meta

    def set_name(self, name, v, fid=None):
        fid = fid if fid is not None else self.frame.fid
        f = self.frame.func
        if fid == self.frame.fid and f is not None and name in getattr(f, "nonlocals", ()):
            p = self.frame_meta.get(fid)
            while p is not None:
                if name in self.st.envs.get(p, {}):
                    fid = p
                    break
                p = self.frame_meta.get(p)
            if p is None or self.frame_meta.get(p) is None:
                self.emit("global", mk("const", name), f.node, value=v)
        env = dict(self.st.envs.get(fid, {}))
        env[name] = v
        self.st.envs[fid] = env

    # ------------------------------------------------------------------ values
    def val(self, t, d=8):
        """Value of reference *t* in the current state (store chains and contents applied)."""
        if not isinstance(t, Term) or d == 0:
            return t
        h = self.st.heap
        o = t.op
        if o in ("const", "glob", "sym", "func", "cls", "closure"):
            v = h.get(("arr", t))
            return v if v is not None else t
        v = h.get(("arr", t))
        if v is not None:
            return v
        if o == "obj":
            c = h.get(("obj", t))
            if c is None:
                return t
            return self.val(c, d - 1)
        if o in ("tuple", "list"):
            args = tuple(self.val(x, d - 1) for x in t.args)
            return t if args == t.args else mk(o, *args)
        if o == "dict":
            args = tuple((self.val(k, d - 1), self.val(x, d - 1)) for k, x in t.args)
            return t if args == t.args else mk(o, *args)
        if o == "append":
            return mk("append", self.val(t.args[0], d - 1), self.val(t.args[1], d - 1))
        if o == "concat":
            return mk("concat", self.val(t.args[0], d - 1), self.val(t.args[1], d - 1))
        if o == "dictset":
            return mk("dictset", self.val(t.args[0], d - 1), t.args[1], self.val(t.args[2], d - 1))
        if o == "index":
            b = self.val(t.args[0], d - 1)
            # the index was spelled out when the element was taken
            if b is t.args[0]:
                return t
            return self.index_value(b, t.args[1])
        if o == "attr" and t.args[1] in ("T", "real", "flat"):
            b = self.val(t.args[0], d - 1)
            return t if b is t.args[0] else mk("attr", b, t.args[1])
        if o == "phi":
            a, b = self.val(t.args[1], d - 1), self.val(t.args[2], d - 1)
            if a is t.args[1] and b is t.args[2]:
                return t
            return phi(t.args[0], a, b)
        if o == "dup":
            return self.val(t.args[0], d - 1)
        if o == "elem":
            b = self.val(t.args[0], d - 1)
            return t if b is t.args[0] else mk("elem", b, t.args[1])
        if o == "slice":
            args = tuple(self.val(x, d - 1) for x in t.args)
            return t if args == t.args else mk(o, *args)
        if o == "call" and t.args[0].op == "attr" and t.args[0].args[1] in X.ARRAY_VIEWS and not X.fortran(t.args[1], t.args[2]):
            b = self.val(t.args[0].args[0], d - 1)
            return t if b is t.args[0].args[0] else mk("call", mk("attr", b, t.args[0].args[1]), *t.args[1:])
        return t

    def spell(self, it):
        """The iterable of a loop with the contents it has at the first iteration."""
        if it.op == "call" and is_glob(it.args[0], "builtins.zip", "builtins.enumerate", "builtins.reversed", "builtins.list", "builtins.tuple",
                                       "builtins.iter"):
            return mk("call", it.args[0], tuple(x if x.op == "star" else self.spell(x) for x in it.args[1]), *it.args[2:])
        return self.val(it)

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.tick()
        if self.st is None:
            raise DeadPath()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.notes.append(f"unsupported statement {type(s).__name__} at {self.frame.mod.rel}:{s.lineno}")
            return
        m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        self.expr(s.value)

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Assert(self, s):
        c = self.truth(self.expr(s.test))
        d = self.decide(c)
        if d is False:
            self.st = None
            raise DeadPath()
        if d is None:
            self.st = self.st.with_fact(c, True)

    def s_Import(self, s):
        for al in s.names:
            root = al.name if al.asname else al.name.split(".")[0]
            if root in self.sources.modules:
                self.load(root)
                v = mk("module", root)
            else:
                v = glob(X.canon_glob(root))
            self.set_name(al.asname or root, v)

    def s_ImportFrom(self, s):
        if s.module == "__future__":
            return
        self.import_from(s)

    def s_FunctionDef(self, s):
        self.set_name(s.name, self.make_func(s))

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, s, cls=None):
        fr = self.frame
        decos = []
        kind = "func"
        deco_terms = []
        for d in s.decorator_list:
            dt = d.func if isinstance(d, ast.Call) else d
            nm = ast.unparse(dt)
            decos.append(nm)
            if nm.split(".")[-1] == "overload":
                prev = self.st.envs.get(fr.fid, {}).get(s.name)
                return prev if prev is not None else mk("opaque", "overload", s.name)
            if nm in ("property", "functools.cached_property", "cached_property"):
                kind = "property"
            elif nm == "staticmethod":
                kind = "staticmethod"
            elif nm == "classmethod":
                kind = "classmethod"
            elif nm.endswith(".setter"):
                kind = "setter"
            elif nm.split(".")[-1] == "contextmanager":
                kind = "contextmanager"
        top = fr.func is None and cls is None
        outer = fr.func.qual + ".<locals>." if fr.func is not None else fr.mod.name + "."
        qual = (cls.qual + "." if cls else outer) + s.name
        key = qual if fr.func is None else (qual, s.lineno, s.col_offset)
        f = self.funcs.get(key)
        if f is None:
            f = Func(qual, s, fr.mod, cls, kind, decos)
            self.funcs[key] = f
        self.funcs[qual] = f
        # default values are evaluated at definition time
        defaults = tuple(self.expr(d) for d in s.args.defaults)
        kwd = tuple(self.expr(d) if d is not None else UNDEF for d in s.args.kw_defaults)
        fid = fr.fid if fr.func is not None else fr.mod.fid
        if fr.func is None:
            return mk("func", qual, defaults, kwd)
        return mk("closure", key, fid, defaults, kwd)

    def s_ClassDef(self, s):
        fr = self.frame
        qual = fr.mod.name + "." + s.name
        bases = [self.expr(b) for b in s.bases]
        c = Cls(qual, s, fr.mod, bases)
        c.dataclass = any("dataclass" in ast.unparse(d) for d in s.decorator_list)
        c.fields = []
        self.classes[qual] = c
        for b in s.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                t = self.make_func(b, c)
                f = self.func_of(t)
                if f is not None and f.kind == "setter":
                    c.setters[b.name] = t
                else:
                    c.members[b.name] = t
                if any("abstractmethod" in ast.unparse(d) for d in b.decorator_list):
                    c.abstract = True
            elif isinstance(b, ast.Assign):
                v = self.expr(b.value)
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        c.members[t.id] = v
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                dv = self.expr(b.value) if b.value is not None else None
                c.fields.append((b.target.id, dv))
                if dv is not None:
                    c.members[b.target.id] = dv
        self.set_name(s.name, mk("cls", qual))

    def func_of(self, t):
        if t.op in ("func", "closure"):
            return self.funcs.get(t.args[0])
        return None

    def mro(self, cls):
        out, seen = [], set()

        def go(c):
            if c in seen or c not in self.classes:
                return
            seen.add(c)
            out.append(c)
            for b in self.classes[c].bases:
                if b.op == "cls":
                    go(b.args[0])

        go(cls)
        return out

    def find_member(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in self.classes[c].members:
                return self.classes[c].members[name]
        return None

    def s_Return(self, s):
        v = self.expr(s.value) if s.value is not None else NONE
        self.frame.returns.append((self.st, v))
        self.emit("return", v, s)
        self.st = None
        raise DeadPath()

    def s_Raise(self, s):
        t = self.expr(s.exc) if s.exc is not None else mk("opaque", "reraise", 0)
        self.emit("raise", t, s)
        self.do_raise(s, explicit=True, exc=t)
        self.st = None
        raise DeadPath()

    def do_raise(self, node, explicit=False, exc=None, what=None):
        st = self.st.copy()
        if self.trys:
            self.trys[-1].append((st, node, explicit, exc, what, self.frame.mod, self.fname()))
        elif not self.muted:
            self.exc_exits.append((st, node, explicit, exc, what, self.frame.mod, self.fname()))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.set_name(t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                b, k = self.expr(t.value), self.expr(t.slice)
                self.del_item(b, k, s)
            elif isinstance(t, ast.Attribute):
                b = self.expr(t.value)
                self.st.heap[("attr", b, t.attr)] = DELETED

    def s_Assign(self, s):
        v = self.expr(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value), s)

    def s_AugAssign(self, s):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.expr(s.value)
            new = self.aug(cur, op, v, s)
            if new is not None:
                self.set_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value)
            cur = self.getattr(b, t.attr, t)
            v = self.expr(s.value)
            new = self.aug(cur, op, v, s)
            if new is not None:
                self.setattr(b, t.attr, new, s)
        elif isinstance(t, ast.Subscript):
            b, k = self.expr(t.value), self.expr(t.slice)
            cur = self.getitem(b, k, t)
            v = self.expr(s.value)
            if cur.op == "obj" and cur.args[0] in ("list", "dict", "set") or self.inner_list(cur) and op == "+":
                self.aug(cur, op, v, s)
            else:
                new = self.binop(op, self.val(cur), self.val(v))
                self.setitem(b, k, new, s)

    def aug(self, cur, op, v, node):
        """In-place operator; returns the new binding or None when the reference is kept."""
        if (cur.op == "obj" and cur.args[0] == "list" or self.inner_list(cur)) and op == "+":
            self.list_extend(cur, v, node)
            return None
        if cur.op == "obj" and cur.args[0] == "set":
            self.st.heap[("obj", cur)] = mk("setop", op, self.val(cur), self.val(v))
            return None
        new = self.binop(op, self.val(cur), self.val(v))
        ts = self.types(cur)
        if ts is not None and ts <= X.IMMUTABLE:
            return new
        if cur.op == "phi":
            leaves = [cur.args[1], cur.args[2]]
            if all((self.types(x) or {"?"}) <= X.IMMUTABLE for x in leaves):
                return new
        if ts != {"ndarray"}:
            self.changed(cur, node)
        self.emit("mutate", cur, node, how="augmented assignment", sure=ts is not None and bool(ts & {"ndarray", "list"}),
                  key=("elem", None), value=new)
        if ts == {"ndarray"}:
            self.arr_store(cur, None, new)
            return None
        if cur.op in ("list", "append", "concat", "comp"):
            return mk("concat", cur, self.val(v))
        return new

    def changed(self, t, node):
        """Something inside a container is modified through *t* in a way that is not followed: its content is unknown from here on."""
        r = t
        while r.op in ("index", "elem", "key", "dictget") and isinstance(r.args[0], Term):
            r = r.args[0]
        if r is t:
            return
        todo, seen = [r], set()
        while todo:
            r = todo.pop()
            if r in seen:
                continue
            seen.add(r)
            if r.op == "obj" and r.args[0] in ("list", "dict") and ("obj", r) in self.st.heap:
                c = self.st.heap[("obj", r)]
                todo.append(c)
                self.st.heap[("obj", r)] = mk("changed", c, self.uid(node))
            elif r.op == "call" and r.args[0].op == "glob" and r.args[0].args[0].startswith("builtins."):
                todo.extend(r.args[1])
            elif r.op in ("list", "tuple", "append", "concat", "star", "changed"):
                todo.extend(x for x in r.args if isinstance(x, Term))

    def arr_store(self, ref, idx, v):
        """Record that array *ref* now holds *v* at *idx* (None: everywhere, same shape)."""
        old = self.val(ref)
        if idx is None:
            new = v
        else:
            new = mk("store", old, idx, v)
        self.st.heap[("arr", ref)] = new
        # propagate through views
        if ref.op == "index" and X.is_view_index(self, ref.args[0], ref.args[1]) and not X.is_data_container(ref.args[0]):
            if ref.args[0].op != "obj":
                self.arr_store(ref.args[0], ref.args[1], new)
        elif ref.op == "elem" and ref.args[0].op not in ("obj", "call", "tuple", "list"):
            self.arr_store(ref.args[0], mk("idx", ref.args[1]), new)
        elif ref.op == "phi":
            c, a, b = ref.args
            for leaf, val in ((a, True), (b, False)):
                if leaf.op in ("const",):
                    continue
                olda = self.val(leaf)
                na = v if idx is None else mk("store", olda, idx, v)
                self.st.heap[("arr", leaf)] = phi(c, na, olda) if val else phi(c, olda, na)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value)
            self.setattr(b, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            b, k = self.expr(t.value), self.expr(t.slice)
            self.setitem(b, k, v, node)

    def unpack(self, elts, v, node):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.literal(v)
        if items is not None and not star and len(items) == n:
            for e, x in zip(elts, items):
                self.assign(e, x, node)
            return
        if items is not None and star:
            k = star[0]
            tail = n - k - 1
            for e, x in zip(elts[:k], items[:k]):
                self.assign(e, x, node)
            mid = items[k: len(items) - tail]
            self.assign(elts[k].value, self.new_list(mid, node), node)
            for e, x in zip(elts[k + 1:], items[len(items) - tail:]):
                self.assign(e, x, node)
            return
        if v.op == "phi":
            c, a, b = v.args
            la, lb = self.literal(a), self.literal(b)
            if la is not None and lb is not None and len(la) == len(lb) == n and not star:
                for e, x, y in zip(elts, la, lb):
                    self.assign(e, phi(c, x, y), node)
                return
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, self.opaque("star", e), node)
            else:
                self.assign(e, self.getitem(v, const(i), node), node)

    def s_If(self, s):
        c = self.truth(self.expr(s.test))

        def body():
            self.block(s.body)

        def orelse():
            self.block(s.orelse)

        self.branch(c, body, orelse)
        if self.st is None:
            raise DeadPath()

    # ------------------------------------------------------------------ loops
    def s_While(self, s):
        L = ("while", self.uid(s))
        test = s.test

        def enter():
            c = self.truth(self.expr(test))
            return c

        if self.expand is not None and self.stepped(s):
            return
        self.loop(s, L, enter=enter, bind=None, body=s.body, orelse=s.orelse)

    def s_For(self, s):
        it = self.expr(s.iter)
        items = self.literal(it)
        if items is not None and len(items) <= (UNROLL if self.expand is None else 64):
            self.unrolled(s, items)
            return
        L = ("for", self.uid(s))
        self.loops[L] = (self.val(it), s, self.frame.mod)
        self.loop_val[L] = self.spell(it)

        def bind():
            self.assign_elem(s.target, it, L, s)

        self.loop(s, L, enter=None, bind=bind, body=s.body, orelse=s.orelse)

    s_AsyncFor = s_For

    def s_Break(self, s):
        self.breaks[-1].append(self.st)
        self.st = None
        raise DeadPath()

    def s_Continue(self, s):
        self.continues[-1].append(self.st)
        self.st = None
        raise DeadPath()

    def stepped(self, s):
        """A while loop whose condition is decided every time (in a scene of known data); False if it is not."""
        saved, events = self.st.copy(), len(self.events)
        exits = len(self.exc_exits)
        breaks = []
        self.breaks = self.breaks + [breaks]
        old = self.itpath
        ok = False
        for i in range(STEPS):
            self.itpath = old + ((s.lineno, i),)
            c = self.decide(self.truth(self.expr(s.test)))
            if c is None:
                break
            if c is False:
                ok = True
                break
            conts = []
            self.continues = self.continues + [conts]
            try:
                self.block(s.body)
            except DeadPath:
                self.st = None
            self.continues = self.continues[:-1]
            self.st = self.join_many([self.st] + conts, s)
            if self.st is None:
                ok = True
                break
        self.itpath = old
        self.breaks = self.breaks[:-1]
        if not ok:
            self.st = saved
            del self.events[events:], self.exc_exits[exits:]
            return False
        if self.st is not None and s.orelse:
            try:
                self.block(s.orelse)
            except DeadPath:
                self.st = None
        self.st = self.join_many([self.st] + breaks, s)
        if self.st is None:
            raise DeadPath()
        return True

    def unrolled(self, s, items):
        breaks = []
        self.breaks = self.breaks + [breaks]
        old = self.itpath
        alive = True
        for i, x in enumerate(items):
            self.itpath = old + ((s.lineno, i),)
            conts = []
            self.continues = self.continues + [conts]
            try:
                self.assign(s.target, x, s)
                self.block(s.body)
            except DeadPath:
                self.st = None
            self.continues = self.continues[:-1]
            self.st = self.join_many([self.st] + conts, s)
            if self.st is None:
                alive = False
                break
        self.itpath = old
        self.breaks = self.breaks[:-1]
        if alive and s.orelse:
            try:
                self.block(s.orelse)
            except DeadPath:
                self.st = None
        self.st = self.join_many([self.st] + breaks, s)
        if self.st is None:
            raise DeadPath()

    def join_many(self, states, node):
        states = [x for x in states if x is not None]
        if not states:
            return None
        return self.fold(states, node)

    def fold(self, states, node):
        """Join several states, gating on the first diverging fact when there is one."""
        if len(states) == 1:
            return states[0]
        vals = [(s, None) for s in states]
        st, _ = self.fold_vals(vals, node)
        return st

    def fold_vals(self, sv, node):
        if len(sv) == 1:
            return sv[0]
        f0 = sv[0][0].facts
        k = 0
        while True:
            if k >= len(f0):
                break
            if all(len(s.facts) > k and s.facts[k] == f0[k] for s, _ in sv):
                k += 1
            else:
                break
        gate = None
        if k < len(f0):
            gate = f0[k][0]
            yes, no, bad = [], [], False
            for s, v in sv:
                if len(s.facts) > k and s.facts[k][0] is gate:
                    (yes if s.facts[k][1] else no).append((s, v))
                else:
                    bad = True
            if bad or not yes or not no:
                gate = None
        if gate is None:
            head, tail = sv[:1], sv[1:]
            a, va = head[0]
            b, vb = self.fold_vals(tail, node)
            g = mk("opq", "join", self.uid(node), len(sv))
            st = self.join(g, a, b)
            return st, (None if va is None or vb is None else phi(g, va, vb))
        a, va = self.fold_vals(yes, node)
        b, vb = self.fold_vals(no, node)
        st = self.join(gate, a, b)
        return st, (None if va is None or vb is None else phi(gate, va, vb))

    def loop(self, s, L, enter, bind, body, orelse):
        pre = self.st
        mus = {}
        for attempt in range(4):
            ev_mark, ex_mark = len(self.events), len(self.exc_exits)
            self.st = pre.copy()
            for key, m in mus.items():
                self.put_key(key, m)
            start = self.st.copy()
            breaks, conts = [], []
            self.breaks = self.breaks + [breaks]
            self.continues = self.continues + [conts]
            self.loopstack = self.loopstack + [L]
            try_mark = [len(t) for t in self.trys]
            if attempt == 0:
                self.muted += 1
            cond = None
            exit_state = None
            try:
                if enter is not None:
                    cond = enter()
                    d = self.decide(cond)
                    exit_state = None if d is True else self.st.copy()
                    if exit_state is not None and d is None:
                        exit_state.facts = exit_state.facts + ((cond, False),)
                    if d is False:
                        raise DeadPath()
                    if d is None:
                        self.st = self.st.with_fact(cond, True)
                else:
                    exit_state = self.st.copy()
                    self.st = self.st.with_fact(mk("opq", "iter", L), True)
                    bind()
                self.block(body)
            except DeadPath:
                self.st = None
            finally:
                if attempt == 0:
                    self.muted -= 1
                self.breaks = self.breaks[:-1]
                self.continues = self.continues[:-1]
                self.loopstack = self.loopstack[:-1]
            back = self.join_many([self.st] + conts, s)
            changed = set()
            for other in [back] + breaks:
                if other is not None:
                    changed |= self.changed_keys(start, other, L)
            new = [k for k in changed if k not in mus]
            if attempt == 0 or new:
                if attempt < 3:
                    del self.events[ev_mark:]
                    del self.exc_exits[ex_mark:]
                    for t, n in zip(self.trys, try_mark):
                        del t[n:]
                for k in new:
                    mus[k] = mk("mu", L, self.keystr(k))
                if attempt < 3:
                    continue
            break
        # record back edges and build the state after the loop
        out = exit_state
        finals = {}
        for key, m in mus.items():
            init = self.get_key(pre, key)
            post = self.get_key(back, key) if back is not None else init
            self.mu_next[m] = (init, post)
            finals[key] = self.summarise(m, init, post, L) if not breaks else m
        if out is not None:
            self.st = out
            for key, v in finals.items():
                self.put_key(key, v)
            # per-iteration heap cells (based on objects created in the loop) survive
            if back is not None:
                for k, v in back.heap.items():
                    if k not in self.st.heap:
                        self.st.heap[k] = v
            out = self.st
            if orelse:
                try:
                    self.block(orelse)
                    out = self.st
                except DeadPath:
                    out = None
        res = self.join_many([out] + breaks, s)
        if res is None:
            self.st = None
            raise DeadPath()
        # facts established inside the loop do not survive
        if out is None or breaks:
            res.facts = pre.facts
        self.st = res

    def summarise(self, m, init, post, L):
        """Turn 'start empty, append x every iteration' into a comprehension term."""
        if init.op == "list" and len(init.args) == 0 and L[0] == "for":
            x, cond = self.appended(post, m)
            if x is not None:
                it = self.loops[L][0]
                return mk("comp", "list", x, L, it, cond)
        return m

    def appended(self, post, m):
        if post.op == "append" and post.args[0] is m:
            return post.args[1], TRUE
        if post.op == "phi":
            c, a, b = post.args
            if b is m:
                x, g = self.appended(a, m)
                return (x, and_(c, g)) if x is not None else (None, None)
            if a is m:
                x, g = self.appended(b, m)
                return (x, and_(not_(c), g)) if x is not None else (None, None)
        return None, None

    def keystr(self, k):
        return k

    def get_key(self, st, key):
        if key[0] == "env":
            return st.envs.get(key[1], {}).get(key[2], UNDEF)
        v = st.heap.get(key[1])
        return v if v is not None else self.default(key[1])

    def put_key(self, key, v):
        if key[0] == "env":
            env = dict(self.st.envs.get(key[1], {}))
            env[key[2]] = v
            self.st.envs[key[1]] = env
        else:
            self.st.heap[key[1]] = v

    def changed_keys(self, a, b, L):
        out = set()
        for fid, eb in b.envs.items():
            ea = a.envs.get(fid)
            if ea is None or ea is eb:
                continue
            for k, v in eb.items():
                if ea.get(k, UNDEF) is not v:
                    if k not in ea:
                        # first bound in the loop: only matters if read before written
                        continue
                    out.add(("env", fid, k))
        for k, v in b.heap.items():
            old = a.heap.get(k)
            if old is v:
                continue
            if old is None and self.made_in_loop(k, L):
                continue
            out.add(("heap", k))
        return out

    def made_in_loop(self, key, L):
        stack = [key]
        seen = set()
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                if x == L:
                    return True
                stack.extend(x)
                continue
            if not isinstance(x, Term) or x in seen:
                continue
            seen.add(x)
            if x.op in ("elem", "idx", "key") and x.args[-1] == L:
                return True
            if x.op == "call" or x.op == "obj":
                u = x.args[-1]
                if isinstance(u, int) and u < len(self.uid_info) and L in self.uid_info[u][3]:
                    return True
                if x.op == "obj":
                    continue
            stack.extend(x.args)
        return False

    def assign_elem(self, target, it, L, node):
        """Bind a loop target to a generic element of *it*."""
        self.assign(target, self.elem(it, L, node), node)

    def elem(self, it, L, node):
        if it.op == "phi":
            return phi(it.args[0], self.elem(it.args[1], L, node), self.elem(it.args[2], L, node))
        if it.op == "call":
            f, args = it.args[0], it.args[1]
            if is_glob(f, "builtins.zip"):
                return mk("tuple", *[self.elem(a, L, node) for a in args])
            if is_glob(f, "builtins.enumerate"):
                st = self.kwarg(it, "start", 1)
                i = mk("idx", L)
                if st is not None and not is_const(st, 0):
                    i = mk("bin", "+", i, st)
                return mk("tuple", i, self.elem(args[0], L, node))
            if is_glob(f, "builtins.range"):
                lo = args[0] if len(args) > 1 else const(0)
                if len(args) < 3:
                    i = mk("idx", L)
                    return i if is_const(lo, 0) else mk("bin", "+", i, lo)
                return mk("elem", it, L)
            if f.op == "attr" and f.args[1] == "items" and not args:
                d = f.args[0]
                k = mk("key", d, L)
                return mk("tuple", k, self.getitem(d, k, node))
            if f.op == "attr" and f.args[1] == "keys" and not args:
                return mk("key", f.args[0], L)
            if f.op == "attr" and f.args[1] == "values" and not args:
                d = f.args[0]
                return self.getitem(d, mk("key", d, L), node)
            if is_glob(f, "builtins.list", "builtins.tuple", "builtins.iter") and len(args) == 1 and args[0].op != "star":
                return self.elem(args[0], L, node)
        if it.op == "obj":
            c = self.st.heap.get(("obj", it))
            if it.args[0] == "dict":
                return mk("key", it, L)
            if it in self.nested:
                return mk("index", it, mk("idx", L))
            if c is not None and (c.op == "comp" or c.op == "call" and (
                    is_glob(c.args[0], "builtins.enumerate", "builtins.zip", "builtins.list", "builtins.tuple")
                    or c.args[0].op == "attr" and c.args[0].args[1] in ("items", "keys", "values") and not c.args[1])):
                return self.elem(c, L, node)
        if it.op == "comp":
            kind, x, L0, src, cond = it.args
            if kind in ("list", "gen", "tuple") and x.op != "flat":
                return self.subst_loop(x, L0, L)
        if X.is_data_container(it):
            return mk("key", it, L)
        return mk("elem", it, L)

    def subst_loop(self, t, a, b):
        memo = {}

        def go(x):
            if isinstance(x, tuple):
                if x == a:
                    return b
                return tuple(go(y) for y in x)
            if not isinstance(x, Term):
                return x
            r = memo.get(x)
            if r is None:
                args = tuple(go(y) for y in x.args)
                r = x if args == x.args else mk(x.op, *args)
                memo[x] = r
            return r

        return go(t)

    @staticmethod
    def kwarg(call, name, pos=None):
        for k, v in call.args[2]:
            if k == name:
                return v
        if pos is not None and len(call.args[1]) > pos:
            return call.args[1][pos]
        return None

    # ------------------------------------------------------------------ try / with
    def s_Try(self, s):
        caught = []
        self.trys.append(caught)
        names = [X.handler_names(h) for h in s.handlers]
        self.catch_key.append(any(n is not None and X.exc_matches("KeyError", n) for n in names) and all(n is not None for n in names))
        n_ret = len(self.frame.returns)
        n_brk = [len(b) for b in self.breaks]
        n_con = [len(b) for b in self.continues]
        try:
            self.block(s.body)
            if s.orelse:
                self.trys.pop()
                self.trys.append([])
                # exceptions of the else block are not caught by the handlers here
                try:
                    self.block(s.orelse)
                finally:
                    caught_else = self.trys.pop()
                    self.trys.append(caught)
            else:
                caught_else = []
        except DeadPath:
            self.st = None
            caught_else = []
        self.trys.pop()
        self.catch_key.pop()
        normal = self.st
        handler_states = []
        outer_exc = []
        if s.handlers and caught:
            catch_all = any(h.type is None or ast.unparse(h.type).split(".")[-1] in ("Exception", "BaseException")
                            for h in s.handlers)
            exc_collect = []
            self.trys.append(exc_collect)
            for h in s.handlers:
                names = X.handler_names(h)
                cands = []
                for c in caught:
                    nm = X.exc_name(c[3]) if c[2] else None
                    if nm is None or h.type is None or X.exc_matches(nm, names):
                        cands.append(c)
                if not cands:
                    continue
                st = self.merge_exc([c[0] for c in cands], h)
                self.st = st.copy()
                self.st.facts = self.st.facts + ((mk("opq", "exc", self.uid(h)), True),)
                if h.name:
                    self.set_name(h.name, self.opaque("exc", h))
                try:
                    self.block(h.body)
                    handler_states.append(self.st)
                except DeadPath:
                    pass
            self.trys.pop()
            outer_exc += exc_collect
            for c in caught:
                nm = X.exc_name(c[3]) if c[2] else None
                if catch_all:
                    continue
                if nm is not None and any(h.type is None or X.exc_matches(nm, X.handler_names(h)) for h in s.handlers):
                    continue
                outer_exc.append(c)
        else:
            outer_exc += caught
        outer_exc += caught_else
        states = [x for x in [normal] + handler_states if x is not None]
        after = None
        if states:
            after = states[0]
            for o in states[1:]:
                after = self.join(mk("opq", "try", self.uid(s)), after, o)
            if len(states) > 1:
                pass
        if s.finalbody:
            # early exits out of the try statement run the finally block too
            rets = self.frame.returns[n_ret:]
            del self.frame.returns[n_ret:]
            fixed = []
            for st, v in rets:
                self.st = st.copy()
                try:
                    self.block(s.finalbody)
                    fixed.append((self.st, v))
                except DeadPath:
                    pass
            self.frame.returns.extend(fixed)
            for lst, marks in ((self.breaks, n_brk), (self.continues, n_con)):
                for b, n in zip(lst, marks):
                    tail = b[n:]
                    del b[n:]
                    for st in tail:
                        self.st = st.copy()
                        try:
                            self.block(s.finalbody)
                            b.append(self.st)
                        except DeadPath:
                            pass
            if outer_exc:
                done = []
                # every exceptional exit runs the finally block on its own state
                self.muted += 1
                groups = {}
                for c in outer_exc:
                    sig = tuple(sorted((repr_key(k), id(v)) for k, v in c[0].heap.items()))
                    groups.setdefault(sig, []).append(c)
                try:
                    for cs in groups.values():
                        self.st = cs[0][0].copy()
                        try:
                            self.block(s.finalbody)
                        except DeadPath:
                            continue
                        for c in cs:
                            done.append((self.st.copy(),) + c[1:])
                finally:
                    self.muted -= 1
                outer_exc = done
            self.st = after
            if after is not None:
                try:
                    self.block(s.finalbody)
                    after = self.st
                except DeadPath:
                    after = None
        if outer_exc:
            if self.trys:
                self.trys[-1].extend(outer_exc)
            elif not self.muted:
                self.exc_exits.extend(outer_exc)
        self.st = after
        if after is None:
            raise DeadPath()

    def merge_exc(self, states, node):
        st = states[0]
        for i, o in enumerate(states[1:]):
            st = self.join(mk("opq", "excjoin", self.uid(node), i), st, o)
        return st.copy()

    def s_With(self, s):
        self.with_items(s, list(s.items))

    s_AsyncWith = s_With

    def with_items(self, s, items):
        if not items:
            self.block(s.body)
            return
        it, rest = items[0], items[1:]
        e = it.context_expr
        if isinstance(e, ast.Call):
            f = self.expr(e.func)
            tgt = f
            if f.op == "bmeth":
                tgt = f.args[0]
            fn = self.func_of(tgt)
            if fn is not None and (fn.kind == "contextmanager" or any(d.split(".")[-1] == "contextmanager" for d in fn.decos)):
                args, kwargs = self.call_args(e)
                if f.op == "bmeth" and fn.kind != "staticmethod":
                    args = [f.args[1]] + args
                outer = self.frames
                fr_state = {}

                def cb(v):
                    inner_frames = self.frames
                    self.frames = outer
                    try:
                        if it.optional_vars is not None:
                            self.assign(it.optional_vars, v, s)
                        self.with_items(s, rest)
                    finally:
                        self.frames = inner_frames

                self.inline(tgt, args, kwargs, e, yield_cb=cb)
                return
        v = self.expr(e)
        if v.op == "call" and is_glob(v.args[0], "contextlib.suppress"):
            pre = self.st
            caught = []
            self.trys.append(caught)
            try:
                self.with_items(s, rest)
            except DeadPath:
                self.st = None
            self.trys.pop()
            states = [self.st] + [c[0] for c in caught]
            self.st = None
            for o in states:
                self.st = self.join(mk("opq", "suppress", self.uid(s)), self.st, o) if self.st is not None else o
            if self.st is None:
                raise DeadPath()
            return
        if it.optional_vars is not None:
            self.assign(it.optional_vars, mk("call", mk("attr", v, "__enter__"), (), (), self.uid(s)), s)
        self.with_items(s, rest)

    # ------------------------------------------------------------------ expressions
    def expr(self, e):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.notes.append(f"unsupported expression {type(e).__name__}")
            return self.opaque("expr", e)
        r = m(e)
        return r if r is not None else self.opaque("none", e)

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return const("...") if False else mk("ellipsis")
        return const(e.value)

    def e_Name(self, e):
        if e.id == "TYPE_CHECKING":
            return FALSE
        v = self.lookup(e.id)
        if v is UNDEF:
            return mk("undef") if False else UNDEF
        if v.op == "glob" and v.args[0] == "typing.TYPE_CHECKING":
            return FALSE
        return v

    def e_Attribute(self, e):
        return self.getattr(self.expr(e.value), e.attr, e)

    def e_Subscript(self, e):
        b = self.expr(e.value)
        k = self.expr(e.slice)
        return self.getitem(b, k, e)

    def e_Slice(self, e):
        f = lambda x: self.expr(x) if x is not None else NONE
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e):
        return mk("tuple", *self.seq(e.elts))

    def e_List(self, e):
        return self.new_list(self.seq(e.elts), e)

    def e_Set(self, e):
        return self.new_set(self.seq(e.elts), e)

    def new_set(self, items, node):
        """A set; in scenes of known data an object, so that it can change."""
        uniq = []
        for x in items:
            if x not in uniq:
                uniq.append(x)
        if self.expand is None or any(x.op != "const" for x in uniq):
            return mk("set", *items)
        o = mk("obj", "set", self.uid(node))
        self.st.heap[("obj", o)] = mk("set", *uniq)
        return o

    def dead(self):
        self.st = None
        raise DeadPath()

    def seq(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value)
                lit = self.literal(v)
                if lit is not None:
                    out.extend(lit)
                else:
                    out.append(mk("star", self.val(v)))
            else:
                out.append(self.expr(x))
        return out

    def new_list(self, items, node):
        o = mk("obj", "list", self.uid(node))
        self.st.heap[("obj", o)] = mk("list", *items)
        return o

    def e_Dict(self, e):
        pairs = []
        o = mk("obj", "dict", self.uid(e))
        content = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.expr(v)
                dc = self.val(d)
                if dc.op == "dict":
                    pairs = [p for p in pairs if p[0] not in [q[0] for q in dc.args]] + list(dc.args)
                else:
                    pairs.append((mk("star", dc), dc))
            else:
                kt, vt = self.expr(k), self.expr(v)
                pairs = [p for p in pairs if p[0] is not kt] + [(kt, vt)]
        self.st.heap[("obj", o)] = mk("dict", *pairs)
        return o

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.val(self.expr(v.value))
                parts.append(x)
            else:
                parts.append(const(v.value))
        if all(p.op == "const" for p in parts):
            return const("".join(str(cval(p)) for p in parts))
        return mk("fstr", *parts)

    def e_Lambda(self, e):
        fr = self.frame
        outer = fr.func.qual + ".<locals>." if fr.func is not None else fr.mod.name + "."
        key = (outer + "<lambda>", e.lineno, e.col_offset)
        if key not in self.funcs or self.funcs[key].node is not e:
            self.funcs[key] = Func(outer + "<lambda>", e, fr.mod)
        defaults = tuple(self.expr(d) for d in e.args.defaults)
        kwd = tuple(self.expr(d) if d is not None else UNDEF for d in e.args.kw_defaults)
        return mk("closure", key, fr.fid, defaults, kwd)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Starred(self, e):
        return mk("star", self.val(self.expr(e.value)))

    def e_IfExp(self, e):
        c = self.truth(self.expr(e.test))
        return self.branch(c, lambda: self.expr(e.body), lambda: self.expr(e.orelse))

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)

        def go(vals):
            v = self.expr(vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(v)
            if is_and:
                r = self.branch(c, lambda: go(vals[1:]), lambda: v if not X.is_boolish(v) else FALSE)
            else:
                r = self.branch(c, lambda: v if not X.is_boolish(v) else TRUE, lambda: go(vals[1:]))
            return r

        return go(e.values)

    def e_UnaryOp(self, e):
        v = self.expr(e.operand)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v))
        v = self.val(v)
        if isinstance(e.op, ast.USub):
            if v.op == "const" and isinstance(cval(v), (int, float)):
                return const(-cval(v))
            return mk("un", "-", v)
        if isinstance(e.op, ast.UAdd):
            return v
        if v.op == "un" and v.args[0] == "~":
            return v.args[1]
        return mk("un", "~", v)

    def e_BinOp(self, e):
        a = self.expr(e.left)
        b = self.expr(e.right)
        op = BINOPS[type(e.op)]
        if op == "+":
            la, lb = self.literal(a), self.literal(b)
            if a.op == "obj" and a.args[0] == "list" or b.op == "obj" and b.args[0] == "list":
                if la is not None and lb is not None:
                    return self.new_list(la + lb, e)
                o = mk("obj", "list", self.uid(e))
                self.st.heap[("obj", o)] = mk("concat", self.val(a), self.val(b))
                return o
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *(a.args + b.args))
        if op == "*" and a.op == "obj" and a.args[0] == "list" and b.op == "const":
            la = self.literal(a)
            if la is not None and isinstance(cval(b), int) and len(la) * cval(b) <= UNROLL:
                return self.new_list(la * cval(b), e)
        if op == "%" and a.op == "const" and isinstance(cval(a), str):
            return mk("fstr", a, self.val(b))
        va, vb = self.val(a), self.val(b)
        if op == "|" and {"dict"} == (self.types(a) or set()) == (self.types(b) or set()):
            return mk("bin", op, va, vb)
        r = self.binop(op, va, vb)
        ts = self.types(r)
        if r.op == "bin" and self.types(a) is not None and self.types(a) & X.MESHES:
            return mk("call", glob("operator." + op), (va, vb), (), self.uid(e))
        return r

    def binop(self, op, a, b):
        if a.op == "const" and b.op == "const":
            x, y = cval(a), cval(b)
            try:
                if op == "+":
                    return const(x + y)
                if op == "-":
                    return const(x - y)
                if op == "*":
                    return const(x * y)
                if op == "/":
                    return const(x / y)
                if op == "//":
                    return const(x // y)
                if op == "%":
                    return const(x % y)
                if op == "**":
                    return const(x ** y)
                if op == "|":
                    return const(x | y)
                if op == "&":
                    return const(x & y)
            except Exception:
                pass
        if op == "+" and a.op == "tuple" and b.op == "tuple":
            return mk("tuple", *(a.args + b.args))
        return mk("bin", op, a, b)

    def e_Compare(self, e):
        left = self.expr(e.left)
        parts = []
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r)
            parts.append(self.compare(CMPOPS[type(op)], left, right, e))
            left = right
        if len(parts) == 1:
            return parts[0]
        return and_(*[self.truth(p) for p in parts])

    def compare(self, op, a, b, node):
        if op == "!=":
            return not_(self.compare("==", a, b, node))
        if op == "is not":
            return not_(self.compare("is", a, b, node))
        if op == "not in":
            return not_(self.compare("in", a, b, node))
        if op == ">":
            return self.compare("<", b, a, node)
        if op == ">=":
            return self.compare("<=", b, a, node)
        if op == "in":
            return self.contains(a, b, node)
        if op == "is":
            if b is NONE or a is NONE:
                x = a if b is NONE else b
                return self.none_test(x)
            if a is b:
                return TRUE
            va, vb = a, b
            return mk("cmp", "is", va, vb)
        va, vb = self.val(a), self.val(b)
        if va.op == "phi" and vb.op == "const" and X.phi_consts(va):
            return phi(va.args[0], self.compare(op, va.args[1], vb, node), self.compare(op, va.args[2], vb, node))
        if va.op == "const" and vb.op == "const":
            try:
                x, y = cval(va), cval(vb)
                return const(x == y if op == "==" else x < y if op == "<" else x <= y)
            except Exception:
                return mk("cmp", op, va, vb)
        if op == "==":
            if va is vb and va.op in ("sym", "tuple", "const") and (self.types(va) or {"?"}) <= X.IMMUTABLE:
                return TRUE
            if va.op == "tuple" and vb.op == "tuple" and len(va.args) != len(vb.args):
                return FALSE
            if va.op == "tuple" and vb.op == "tuple":
                return and_(*[self.truth(self.compare("==", x, y, node)) for x, y in zip(va.args, vb.args)])
            if va.op == "const" and vb.op != "const":
                va, vb = vb, va
            if vb is NONE:
                return self.none_test(va)
        r = X.fold_cmp(self, op, va, vb)
        if r is not None:
            return const(r)
        return mk("cmp", op, va, vb)

    def none_test(self, x):
        if x is NONE:
            return TRUE
        if x.op == "phi":
            return phi(x.args[0], self.none_test(x.args[1]), self.none_test(x.args[2]))
        n = self.is_none(x)
        if n is not None:
            return const(n)
        if x.op in ("func", "closure", "cls", "obj", "tuple", "list", "bin", "comp", "fstr", "slice", "module"):
            return FALSE
        return mk("cmp", "is", x, NONE)

    def contains(self, a, b, node):
        a = self.val(a)
        items = None
        bt = b
        if b.op == "call" and is_glob(b.args[0], "builtins.frozenset", "builtins.set") and len(b.args[1]) == 1:
            return self.contains(a, b.args[1][0], node)
        if b.op == "obj" and b.args[0] == "set" and self.expand is not None:
            c = self.st.heap.get(("obj", b))
            if c is not None and c.op == "set":
                b = c
        if b.op == "set":
            items = list(b.args)
        elif b.op == "const" and isinstance(cval(b), (tuple, frozenset)):
            items = [const(x) for x in cval(b)]
        elif b.op == "const" and isinstance(cval(b), str) and a.op == "const":
            return const(cval(a) in cval(b))
        elif b.op in ("tuple",) or (b.op == "obj" and b.args[0] == "list"):
            items = self.literal(b)
        elif b.op == "obj" and b.args[0] == "dict":
            c = self.st.heap.get(("obj", b))
            if c is not None and c.op == "dict" and not any(k.op == "star" for k, _ in c.args):
                items = [k for k, _ in c.args]
        elif b.op == "call" and b.args[0].op == "attr" and b.args[0].args[1] == "keys":
            return self.contains(a, b.args[0].args[0], node)
        elif X.is_data_container(b):
            v = self.st.heap.get(("item", b, a))
            if v is DELETED:
                return FALSE
            if v is not None and v.op != "phi":
                return TRUE
            if v is not None:
                return self.present(v, b, a)
            conds = [c for c, _ in self.generic_items(b, a)]
            base = FALSE if X.fresh_data(self, b) and (
                a.op == "const" or not any(k[0] in ("item", "gen", "from") and k[1] is b for k in self.st.heap)
            ) else mk("cmp", "in", a, b)
            return or_(*conds, base)
        if items is not None and not any(x.op == "star" for x in items) and len(items) <= 64:
            return or_(*[self.truth(self.compare("==", a, x, node)) for x in items])
        return mk("cmp", "in", a, self.val(b))

    def generic_items(self, b, k):
        """Entries written for every key of some collection, instantiated at *k*."""
        out = []
        if k.op != "const" or (b, k) in self.resolving:
            return out
        self.resolving.add((b, k))
        try:
            return self._generic_items(b, k, out)
        finally:
            self.resolving.discard((b, k))

    def _generic_items(self, b, k, out):
        for key, v in list(self.st.heap.items()):
            if key[0] in ("item", "gen") and key[1] is b and key[2].op == "key":
                gk = key[2]
                c = self.truth(self.contains(k, gk.args[0], None))
                if key[0] == "gen":
                    extra = self.at_key(v.args[2], gk, k)
                    c = and_(c, self.recheck(extra))
                    v = v.args[0]
                out.append((c, self.at_key(v, gk, k)))
            elif key[0] == "from" and key[1] is b:
                c = self.truth(self.contains(k, v, None))
                out.append((c, self.getitem(v, k, None)))
        return out

    def recheck(self, c):
        if c.op == "cmp" and c.args[0] == "in" and X.is_data_container(c.args[2]):
            return self.truth(self.contains(c.args[1], c.args[2], None))
        if c.op == "and":
            return and_(*[self.recheck(x) for x in c.args])
        return c

    def at_key(self, t, gk, k):
        """Instantiate a generic key and re-resolve data lookups at it."""
        memo = {}

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, Term):
                return x
            if x is gk:
                return k
            r = memo.get(x)
            if r is None:
                if x.op == "index" and X.is_data_container(x.args[0]) and x.args[1] is gk:
                    r = self.val(self.getitem(x.args[0], k, None))
                else:
                    args = tuple(go(y) for y in x.args)
                    r = x if args == x.args else mk(x.op, *args)
                memo[x] = r
            return r

        return go(t)

    def present(self, v, b, a):
        if v is DELETED:
            return FALSE
        if v.op == "phi":
            return phi(v.args[0], self.present(v.args[1], b, a), self.present(v.args[2], b, a))
        if v is mk("index", b, a):
            return mk("cmp", "in", a, b)
        return TRUE

    # comprehensions ------------------------------------------------------
    def e_ListComp(self, e):
        c = self.comp(e, "list")
        if c.op == "obj":
            return c
        o = mk("obj", "list", self.uid(e))
        self.st.heap[("obj", o)] = c
        if fresh_list(e.elt):
            self.nested.add(o)
        return o

    def e_GeneratorExp(self, e):
        return self.comp(e, "gen")

    def e_SetComp(self, e):
        return self.comp(e, "set")

    def e_DictComp(self, e):
        o = mk("obj", "dict", self.uid(e))
        c = self.comp(e, "dict")
        self.st.heap[("obj", o)] = c
        if fresh_list(e.value) and c.op != "dict":
            self.nested.add(o)
        return o

    def comp(self, e, kind):
        gens = e.generators
        saved_env = self.st.envs.get(self.frame.fid)

        def elt():
            if kind == "dict":
                return mk("tuple", self.expr(e.key), self.expr(e.value))
            return self.expr(e.elt)

        def run(i):
            """Returns ('lit', [terms]) or ('comp', term)."""
            if i == len(gens):
                return ("lit", [elt()])
            g = gens[i]
            it = self.expr(g.iter)
            items = self.literal(it)
            if items is not None and len(items) <= (UNROLL if self.expand is None else 64):
                out = []
                old = self.itpath
                for n, x in enumerate(items):
                    self.itpath = old + ((e.lineno, e.col_offset, i, n),)
                    self.assign(g.target, x, e)
                    ok = True
                    for c in g.ifs:
                        d = self.decide(self.truth(self.expr(c)))
                        if d is False:
                            ok = False
                            break
                        if d is None:
                            self.itpath = old
                            return self.run_opaque(e, gens, i, it, run, kind)
                    if ok:
                        k, v = run(i + 1)
                        if k == "lit":
                            out.extend(v)
                        else:
                            out.append(mk("star", v))
                self.itpath = old
                return ("lit", out)
            return self.run_opaque(e, gens, i, it, run, kind)

        k, v = run(0)
        # comprehension variables are local to the comprehension
        if saved_env is not None:
            cur = self.st.envs.get(self.frame.fid, {})
            names = set()
            for g in gens:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        names.add(n.id)
            env = dict(cur)
            for n in names:
                if n in saved_env:
                    env[n] = saved_env[n]
                else:
                    env.pop(n, None)
            self.st.envs[self.frame.fid] = env
        if k == "lit":
            if kind == "dict":
                pairs = []
                for p in v:
                    if p.op != "tuple":
                        return mk("opaque", "dictcomp", self.uid(e))
                    pairs = [q for q in pairs if q[0] is not p.args[0]] + [(p.args[0], p.args[1])]
                return mk("dict", *pairs)
            if kind == "list":
                return mk("list", *v)
            if kind == "set":
                return self.new_set(list(v), e)
            return mk("tuple", *v)
        return v

    def run_opaque(self, e, gens, i, it, run, kind):
        g = gens[i]
        L = ("comp", self.uid(e), i)
        itv = self.spell(it)
        self.loops[L] = (itv, e, self.frame.mod)
        self.loopstack = self.loopstack + [L]
        pre = self.st
        self.st = pre.with_fact(mk("opq", "iter", L), True)
        cond = TRUE
        try:
            self.assign_elem(g.target, it, L, e)
            for c in g.ifs:
                t = self.truth(self.expr(c))
                d = self.decide(t)
                if d is None:
                    cond = and_(cond, t)
                    self.st = self.st.with_fact(t, True)
                elif d is False:
                    cond = FALSE
            k, v = run(i + 1)
            post = self.st
        except DeadPath:
            self.loopstack = self.loopstack[:-1]
            self.st = pre
            return ("comp", mk("comp", kind, self.opaque("dead", e), L, itv, FALSE))
        self.loopstack = self.loopstack[:-1]
        # effects inside the element expression are kept under an opaque gate
        self.st = self.join(mk("opq", "ran", L), post, pre)
        self.st.envs[self.frame.fid] = dict(post.envs.get(self.frame.fid, {}))
        self.st.facts = pre.facts
        if k == "lit":
            x = v[0] if len(v) == 1 else mk("flat", *v)
        else:
            x = mk("flat", mk("star", v))
        x = self.val(x) if x.op == "obj" else x
        return ("comp", mk("comp", kind, x, L, itv, cond))

    # yields
    def e_Yield(self, e):
        v = self.expr(e.value) if e.value is not None else NONE
        fr = self.frame
        if fr.yield_cb is not None:
            fr.yield_cb(v)
            return NONE
        if fr.yield_obj is not None:
            self.list_append(fr.yield_obj, v, e)
        return NONE

    def e_YieldFrom(self, e):
        v = self.expr(e.value)
        if self.frame.yield_obj is not None:
            self.list_extend(self.frame.yield_obj, v, e)
        return NONE

    def e_Await(self, e):
        return self.expr(e.value)

    # ------------------------------------------------------------------ attributes
    def getattr(self, b, name, node):
        if b.op == "phi":
            c = b.args[0]
            base = self.st
            return self.branch(c, lambda: self.getattr(b.args[1], name, node), lambda: self.getattr(b.args[2], name, node))
        if b.op == "module":
            mod = b.args[0]
            env = self.mod_env(mod)
            if name in env:
                return env[name]
            if mod + "." + name in self.sources.modules:
                self.load(mod + "." + name)
                return mk("module", mod + "." + name)
            return glob(f"{mod}.{name}")
        if b.op == "glob":
            return X.glob_attr(b, name)
        h = self.st.heap
        v = h.get(("attr", b, name))
        if v is not None:
            return v
        if self.track_center and name in ("center", "bounds", "length"):
            pts = mk("attr", b, "points")
            cur = h.get(("attr", b, "points"))
            cur = self.val(cur if cur is not None else pts)
            if cur is not pts:
                return mk("attr", mk("moved", b, cur), name)
        if b.op == "obj" and b.args[0] not in ("list", "dict", "set"):
            cls = b.args[0]
            m = self.find_member(cls, name)
            if m is not None:
                f = self.func_of(m)
                if f is not None:
                    if f.kind == "property":
                        return self.inline(m, [b], {}, node)
                    if f.kind == "staticmethod":
                        return m
                    if f.kind == "classmethod":
                        return mk("bmeth", m, mk("cls", cls))
                    return mk("bmeth", m, b)
                return m
            if name == "__class__":
                return mk("cls", cls)
            return mk("attr", b, name)
        if b.op == "cls":
            m = self.find_member(b.args[0], name)
            if m is not None:
                f = self.func_of(m)
                if f is not None and f.kind == "classmethod":
                    return mk("bmeth", m, b)
                return m
            if name in ("__name__", "__qualname__"):
                return const(b.args[0].split(".")[-1])
        if b.op == "super":
            m = self.find_member(b.args[1], name, after=b.args[0])
            if m is not None:
                f = self.func_of(m)
                if f is not None and f.kind == "property":
                    return self.inline(m, [b.args[2]], {}, node)
                if f is not None and f.kind == "staticmethod":
                    return m
                return mk("bmeth", m, b.args[2])
            return mk("attr", b, name)
        return X.attr_value(self, b, name)

    def setattr(self, b, name, v, node):
        if b.op == "phi":
            c, x, y = b.args
            self.branch(c, lambda: self.setattr(x, name, v, node) or NONE, lambda: self.setattr(y, name, v, node) or NONE)
            return
        if b.op == "obj" and b.args[0] not in ("list", "dict", "set"):
            for c in self.mro(b.args[0]):
                st = self.classes[c].setters.get(name)
                if st is not None:
                    self.inline(st, [b, v], {}, node)
                    return
        self.emit("mutate", b, node, how=f"attribute '{name}' assigned", sure=True, key=("attr", name), value=v)
        self.st.heap[("attr", b, name)] = v
        if name in ("points",):
            self.st.heap.pop(("arr", mk("attr", b, name)), None)

    # ------------------------------------------------------------------ subscripts
    def settled(self, k):
        """An index or key as a constant, where a scene of known data tells its value."""
        if self.expand is None or k.op in ("const", "slice", "tuple"):
            return k
        v = X.scene_value(self, self.val(k))
        return const(v) if isinstance(v, (int, str)) and not isinstance(v, bool) else k

    def getitem(self, b, k, node):
        if b.op == "phi":
            return self.branch(b.args[0], lambda: self.getitem(b.args[1], k, node),
                               lambda: self.getitem(b.args[2], k, node))
        if b.op in ("obj", "list", "tuple"):
            k = self.settled(k)
        if k.op == "phi" and X.phi_consts(k) and (b.op in ("tuple", "obj")):
            return self.branch(k.args[0], lambda: self.getitem(b, k.args[1], node),
                               lambda: self.getitem(b, k.args[2], node))
        if X.is_data_container(b):
            kk = self.val(k)
            v = self.st.heap.get(("item", b, kk))
            if v is not None:
                return v
            v = mk("index", b, kk)
            if self.expand is not None and node is not None and not any(q[0] in ("gen", "from", "cleared") and q[1] is b for q in self.st.heap) and self.fails(v):
                self.do_raise(node, explicit=True, exc=glob("builtins.KeyError"), what="KeyError")
                self.dead()
            for c, gv in self.generic_items(b, kk):
                v = phi(c, gv, v)
            return v
        if b.op == "obj" and b.args[0] == "dict":
            c = self.st.heap.get(("obj", b))
            kk = self.val(k)
            if b in self.nested:
                if not (kk.op == "key" and kk.args[0] is b):
                    self.may_miss(node)
                return mk("index", b, kk)
            v = self.dict_get(c, kk)
            if v is not None:
                return v
            if (c is not None and c.op == "dict" and kk.op == "const" and (c.args or self.expand is not None)
                    and all(q.op == "const" for q, _ in c.args)):
                self.do_raise(node, what="KeyError")
                self.st = None
                raise DeadPath()
            self.may_miss(node)
            return mk("index", b, kk)
        lit = self.literal(b) if b.op in ("tuple", "obj", "list") else None
        if lit is not None:
            if k.op == "const" and isinstance(cval(k), int) and not isinstance(cval(k), bool):
                i = cval(k)
                if -len(lit) <= i < len(lit):
                    return lit[i]
            if k.op == "slice" and all(x.op == "const" for x in k.args):
                sl = slice(*[cval(x) for x in k.args])
                if b.op == "tuple":
                    return mk("tuple", *lit[sl])
                return self.new_list(lit[sl], node)
        if b.op == "const" and k.op == "const":
            try:
                return const(cval(b)[cval(k)])
            except Exception:
                pass
        if b.op == "const" and k.op == "slice" and all(x.op == "const" for x in k.args):
            try:
                return const(cval(b)[slice(*[cval(x) for x in k.args])])
            except Exception:
                pass
        if b.op == "obj" and b.args[0] == "list":
            c = self.st.heap.get(("obj", b))
            if c is not None:
                if c.op == "append" and is_const(k, -1):
                    return c.args[1]
                if k.op == "const" and isinstance(cval(k), int) and cval(k) >= 0:
                    first = c
                    while first.op in ("append", "concat"):
                        first = first.args[0]
                    if first.op == "list" and cval(k) < len(first.args) and not any(x.op == "star" for x in first.args[:cval(k) + 1]):
                        return first.args[cval(k)]
                return mk("index", b, self.val(k))
        kk = self.val(k)
        if X.is_mesh_item(self, b, kk):
            # mesh["name"]: point then cell data
            for d in ("point_data", "cell_data"):
                v = self.st.heap.get(("item", mk("attr", b, d), kk))
                if v is not None and v is not DELETED:
                    return v
        return self.index_ref(b, kk)

    def fails(self, t):
        """In a scene of known data: whether computing the term raises; None if not known."""
        try:
            self.expand.value(t)
            return False
        except Fails:
            return True
        except Unknown:
            return None

    def may_miss(self, node):
        """A lookup that may fail, where the code is prepared for it."""
        if self.catch_key and self.catch_key[-1]:
            self.do_raise(node, explicit=True, exc=glob("builtins.KeyError"), what="KeyError")

    def index_ref(self, b, k):
        if X.basic_index(self, k) is False and self.types(b) == {"ndarray"}:
            b = self.val(b)   # a copy of what is there now
        return X.simplify_index(self, b, k)

    def index_value(self, b, k):
        lit = None
        if b.op in ("tuple", "list") and not any(isinstance(x, Term) and x.op == "star" for x in b.args):
            lit = b.args
        if lit is not None and k.op == "const" and isinstance(cval(k), int):
            i = cval(k)
            if -len(lit) <= i < len(lit):
                return lit[i]
        return mk("index", b, k)

    def dict_get(self, c, k):
        while c is not None:
            if c.op == "dict":
                if any(kk.op == "star" for kk, _ in c.args):
                    return None
                for kk, v in c.args:
                    if kk is k:
                        return v
                return None
            if c.op == "dictset":
                if c.args[1] is k:
                    return c.args[2]
                if c.args[1].op == "const" and k.op == "const":
                    c = c.args[0]
                    continue
                return None
            return None
        return None

    def setitem(self, b, k, v, node):
        if b.op == "phi":
            c, x, y = b.args
            self.branch(c, lambda: self.setitem(x, k, v, node) or NONE, lambda: self.setitem(y, k, v, node) or NONE)
            return
        k = self.settled(k) if b.op == "obj" else k
        kk = self.val(k)
        if X.is_data_container(b):
            self.emit("mutate", b, node, how=f"item assigned", sure=True, key=("item", kk), value=v)
            self.st.heap[("item", b, kk)] = v
            return
        if b.op == "obj" and b.args[0] == "dict":
            c = self.st.heap.get(("obj", b))
            if c is not None and c.op == "dict" and kk.op in ("const",) and not any(q.op == "star" for q, _ in c.args) \
                    and all(q.op == "const" for q, _ in c.args):
                pairs = [(q, v if q is kk else x) for q, x in c.args]
                if not any(q is kk for q, _ in pairs):
                    pairs.append((kk, v))
                self.st.heap[("obj", b)] = mk("dict", *pairs)
            else:
                self.st.heap[("obj", b)] = mk("dictset", c if c is not None else b, kk, v)
            self.emit("mutate", b, node, how="item assigned", sure=True, key=("item", kk), value=v)
            return
        if b.op == "obj" and b.args[0] == "list":
            c = self.st.heap.get(("obj", b))
            lit = self.literal(b)
            if lit is not None and kk.op == "const" and isinstance(cval(kk), int) and -len(lit) <= cval(kk) < len(lit):
                lit = list(lit)
                lit[cval(kk)] = v
                self.st.heap[("obj", b)] = mk("list", *lit)
            else:
                self.st.heap[("obj", b)] = mk("store", c if c is not None else b, kk, v)
            self.emit("mutate", b, node, how="item assigned", sure=True, key=("item", kk), value=v)
            return
        ts = self.types(b)
        if ts is not None and ts <= X.MESHES or X.mesh_like(self, b) and kk.op in ("const", "key") and not (
                kk.op == "const" and not isinstance(cval(kk), str)):
            self.emit("mutate", b, node, how="data array assigned", sure=True, key=("data", kk), value=v)
            self.st.heap[("item", mk("attr", b, "cell_data"), kk)] = v
            return
        self.emit("mutate", b, node, how="element assignment", sure=True, key=("elem", kk), value=v)
        self.arr_store(b, kk, self.val(v))

    def del_item(self, b, k, node):
        if b.op == "phi":
            c, x, y = b.args
            self.branch(c, lambda: self.del_item(x, k, node) or NONE, lambda: self.del_item(y, k, node) or NONE)
            return
        k = self.settled(k) if b.op == "obj" else k
        kk = self.val(k)
        self.emit("mutate", b, node, how="item deleted", sure=True, key=("item", kk), value=DELETED)
        if b.op == "obj" and b.args[0] == "dict":
            c = self.st.heap.get(("obj", b))
            if c is not None and c.op == "dict" and kk.op == "const" and all(p[0].op == "const" for p in c.args):
                self.st.heap[("obj", b)] = mk("dict", *[p for p in c.args if p[0] is not kk])
                return
            self.st.heap[("obj", b)] = mk("dictdel", c if c is not None else b, kk)
        elif X.is_data_container(b):
            self.st.heap[("item", b, kk)] = DELETED
        else:
            self.st.heap[("obj", b)] = mk("opaque", "del", self.uid(node))

    # ------------------------------------------------------------------ sequences
    def literal(self, t):
        """Elements of *t* when its length is statically known, else None."""
        if t.op == "tuple" or t.op == "list":
            if any(x.op == "star" for x in t.args):
                return None
            return list(t.args)
        if t.op == "const" and isinstance(cval(t), tuple):
            return [const(x) for x in cval(t)]
        if t.op == "const" and isinstance(cval(t), str):
            return [const(x) for x in cval(t)] if len(cval(t)) <= 8 else None
        if t.op == "obj":
            c = self.st.heap.get(("obj", t))
            if c is None:
                return None
            if c.op == "list" and not any(x.op == "star" for x in c.args) or c.op == "set" and self.expand is not None:
                return list(c.args)
            if c.op == "dict" and not any(k.op == "star" for k, _ in c.args):
                return [k for k, _ in c.args]
            return self.expand(t) if self.expand is not None else None
        if t.op == "call":
            f, args = t.args[0], t.args[1]
            if is_glob(f, "builtins.range") and all(a.op == "const" for a in args):
                try:
                    r = range(*[cval(a) for a in args])
                    return [const(i) for i in r] if len(r) <= 64 else None
                except Exception:
                    return None
            if is_glob(f, "builtins.zip"):
                ls = [self.literal(a) for a in args]
                if ls and all(x is not None for x in ls):
                    return [mk("tuple", *xs) for xs in zip(*ls)]
                return self.expand(t) if self.expand is not None else None
            if is_glob(f, "builtins.enumerate"):
                l = self.literal(args[0])
                st = self.kwarg(t, "start", 1)
                s0 = cval(st) if st is not None and st.op == "const" else 0
                return None if l is None else [mk("tuple", const(i + s0), x) for i, x in enumerate(l)]
            if is_glob(f, "builtins.reversed"):
                l = self.literal(args[0])
                return None if l is None else l[::-1]
            if is_glob(f, "itertools.pairwise") and args:
                l = self.literal(args[0])
                return None if l is None else [mk("tuple", a, b) for a, b in zip(l, l[1:])]
            if f.op == "attr" and f.args[1] in ("items", "values", "keys") and not args:
                d = f.args[0]
                c = self.st.heap.get(("obj", d)) if d.op == "obj" else d
                if c is not None and c.op == "dict" and not any(k.op == "star" for k, _ in c.args):
                    if f.args[1] == "items":
                        return [mk("tuple", k, v) for k, v in c.args]
                    return [k if f.args[1] == "keys" else v for k, v in c.args]
        return self.expand(t) if self.expand is not None else None

    def inner_list(self, o):
        """A list inside a list of fresh lists: its content lives in the outer one."""
        return o.op == "index" and o.args[0] in self.nested and ("obj", o.args[0]) in self.st.heap

    def list_append(self, o, v, node):
        if self.inner_list(o):
            c = self.st.heap[("obj", o.args[0])]
            self.st.heap[("obj", o.args[0])] = mk("store" if o.args[0].args[0] == "list" else "dictset", c, o.args[1], mk("append", mk("index", c, o.args[1]), v))
            return
        c = self.st.heap.get(("obj", o))
        if c is not None and c.op == "list" and len(c.args) < 64:
            self.st.heap[("obj", o)] = mk("list", *(c.args + (v,)))
        else:
            self.st.heap[("obj", o)] = mk("append", c if c is not None else o, v)

    def list_extend(self, o, v, node):
        if self.inner_list(o):
            c = self.st.heap[("obj", o.args[0])]
            self.st.heap[("obj", o.args[0])] = mk("store" if o.args[0].args[0] == "list" else "dictset", c, o.args[1], mk("concat", mk("index", c, o.args[1]), self.val(v)))
            self.emit("mutate", o, node, how="list extended", sure=True, key=("extend",), value=v)
            return
        lit = self.literal(v)
        c = self.st.heap.get(("obj", o))
        if lit is not None and c is not None and c.op == "list" and len(c.args) + len(lit) < 64:
            self.st.heap[("obj", o)] = mk("list", *(c.args + tuple(lit)))
        else:
            self.st.heap[("obj", o)] = mk("concat", c if c is not None else o, self.val(v))
        self.emit("mutate", o, node, how="list extended", sure=True, key=("extend",), value=v)

    # ------------------------------------------------------------------ calls
    def call_args(self, e):
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value)
                lit = self.literal(v)
                if lit is not None:
                    args.extend(lit)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.expr(a))
        for k in e.keywords:
            if k.arg is None:
                d = self.expr(k.value)
                c = self.st.heap.get(("obj", d)) if d.op == "obj" else d
                if c is not None and c.op == "dict" and all(is_const(kk) for kk, _ in c.args):
                    for kk, v in c.args:
                        kwargs[cval(kk)] = v
                else:
                    kwargs["**"] = d
            else:
                kwargs[k.arg] = self.expr(k.value)
        return args, kwargs

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            fr = self.frame
            # find the frame of the enclosing method
            for f in reversed(self.frames):
                if f.func is not None and f.func.cls is not None:
                    a0 = (f.func.node.args.posonlyargs + f.func.node.args.args)
                    selfv = self.st.envs[f.fid].get(a0[0].arg) if a0 else None
                    cls = f.selfcls or f.func.cls.qual
                    return mk("super", f.func.cls.qual, cls, selfv)
        f = self.expr(e.func)
        args, kwargs = self.call_args(e)
        return self.apply(f, args, kwargs, e)

    def apply(self, f, args, kwargs, node):
        if f.op in ("func", "closure"):
            return self.inline(f, args, kwargs, node)
        if f.op == "bmeth":
            return self.inline(f.args[0], [f.args[1]] + args, kwargs, node)
        if f.op == "partial":
            return self.apply(f.args[0], list(f.args[1]) + args, {**dict(f.args[2]), **kwargs}, node)
        if f.op == "cls":
            return self.instantiate(f, args, kwargs, node)
        if f.op == "phi":
            return self.branch(f.args[0], lambda: self.apply(f.args[1], args, kwargs, node),
                               lambda: self.apply(f.args[2], args, kwargs, node))
        if f.op == "obj" and f.args[0] not in ("list", "dict", "set"):
            m = self.find_member(f.args[0], "__call__")
            if m is not None:
                return self.inline(m, [f] + args, kwargs, node)
        r = X.builtin(self, f, args, kwargs, node)
        if r is not None:
            return r
        return self.external(f, args, kwargs, node)

    def instantiate(self, f, args, kwargs, node):
        cls = f.args[0]
        o = mk("obj", cls, self.uid(node))
        init = self.find_member(cls, "__init__")
        if init is not None:
            self.inline(init, [o] + args, kwargs, node, selfcls=cls)
        elif getattr(self.classes[cls], "dataclass", False):
            fields = self.classes[cls].fields
            for (n, dv), v in zip(fields, args):
                self.st.heap[("attr", o, n)] = v
            for n, dv in fields[len(args):]:
                v = kwargs.get(n, dv)
                if v is not None:
                    self.st.heap[("attr", o, n)] = v
        return o

    def inline(self, f, args, kwargs, node, yield_cb=None, selfcls=None):
        fn = self.func_of(f)
        depth = self.frame.depth + 1
        rec = sum(1 for x in self.frames if x.func is fn)
        if fn is None or depth > MAXDEPTH + (8 if self.expand is not None else 0) or rec >= (8 if self.expand is not None else 2):
            t = mk("call", f, tuple(self.val(a) for a in args), tuple(sorted((k, self.val(v)) for k, v in kwargs.items())),
                   self.uid(node))
            self.notes.append(f"not inlined: {fn.qual if fn else f!r}")
            return t
        self.analysed.add(fn.qual)
        if self.opaque_fns and fn.cls is None and fn.qual.split(".")[-1] in self.opaque_fns:
            env = self.bind(fn, f, args, kwargs, node, ("f", fn.qual, self.uid(node), rec))
            t = mk("call", mk("glob", "pvgridder." + fn.qual.split(".")[-1]), tuple(self.val(a) for a in args),
                   tuple(sorted((k, self.val(v)) for k, v in kwargs.items())), self.uid(node))
            self.emit("call_int", f, node, func=fn, args=tuple(args), kwargs=dict(kwargs), env=dict(env or {}))
            return t
        old_ctx = self.ctx
        fid = ("f", fn.qual, self.uid(node), rec)
        parent = f.args[1] if f.op == "closure" else fn.mod.fid
        self._frame_meta[fid] = parent
        env = self.bind(fn, f, args, kwargs, node, fid)
        if env is None:
            return self.opaque("badcall", node)
        self.st.envs[fid] = env
        fr = Frame(fid=fid, func=fn, mod=fn.mod, parent=parent, returns=[], depth=depth, yield_cb=yield_cb,
                   selfcls=selfcls)
        if fn.cls is not None and args and args[0].op == "obj" and args[0].args[0] in self.classes:
            fr.selfcls = args[0].args[0]
        if fn.is_gen and yield_cb is None:
            o = mk("obj", "list", self.uid(node))
            self.st.heap[("obj", o)] = mk("list")
            fr.yield_obj = o
        self.emit("call_int", f, node, func=fn, args=tuple(args), kwargs=dict(kwargs), env=dict(env))
        self.ctx = self.uid(node) + 1
        self.frames = self.frames + [fr]
        saved_b, saved_c, saved_it = self.breaks, self.continues, self.itpath
        self.breaks, self.continues = [], []
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.expr(fn.node.body)
                fr.returns.append((self.st, v))
            else:
                try:
                    self.block(fn.node.body)
                    fr.returns.append((self.st, NONE))
                except DeadPath:
                    pass
        finally:
            self.frames = self.frames[:-1]
            self.ctx = old_ctx
            self.breaks, self.continues, self.itpath = saved_b, saved_c, saved_it
        rets = [(s, v) for s, v in fr.returns if s is not None]
        if not rets:
            self.st = None
            raise DeadPath()
        self.st, v = self.fold_vals(rets, node)
        if fr.yield_obj is not None:
            return fr.yield_obj
        return v

    def bind(self, fn, f, args, kwargs, node, fid):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {n: UNDEF for n in ()}
        defaults = f.args[-2] if f.op in ("func", "closure") else ()
        kwd = f.args[-1] if f.op in ("func", "closure") else ()
        kwargs = dict(kwargs)
        star = [i for i, x in enumerate(args) if x.op == "star"]
        if star:
            # unknown number of positionals: spread symbolically
            i = star[0]
            src = args[i].args[0]
            need = len(pos) - len(defaults) - i
            args = args[:i] + [self.getitem(src, const(j), node) for j in range(max(need, 0))]
        for n, v in zip(pos, args):
            env[n] = v
        extra = args[len(pos):]
        if a.vararg is not None:
            env[a.vararg.arg] = mk("tuple", *extra)
        off = len(pos) - len(defaults)
        for i, n in enumerate(pos):
            if n in env:
                continue
            if n in kwargs:
                env[n] = kwargs.pop(n)
            elif i >= off:
                env[n] = defaults[i - off]
            else:
                env[n] = self.opaque("missing:" + n, node)
        for n, d in zip(a.kwonlyargs, kwd):
            if n.arg in kwargs:
                env[n.arg] = kwargs.pop(n.arg)
            else:
                env[n.arg] = d
        if a.kwarg is not None:
            o = mk("obj", "dict", self.uid(node))
            rest = [(const(k), v) for k, v in kwargs.items() if k != "**" and k not in pos]
            if "**" in kwargs:
                rest.append((mk("star", kwargs["**"]), kwargs["**"]))
            self.st.heap[("obj", o)] = mk("dict", *rest)
            env[a.kwarg.arg] = o
        return env

    def external(self, f, args, kwargs, node):
        """A call leaving the package: record it, model its effects, return its result term."""
        vals = tuple(self.val(a) for a in args)
        kw = tuple(sorted(((k, self.val(v)) for k, v in kwargs.items()), key=lambda x: x[0]))
        if f.op == "attr" and (f.args[1] in X.ARRAY_COPIES or f.args[1] == "ravel" and X.fortran(vals, kw)) \
                and (("arr", f.args[0]) in self.st.heap or f.args[0].op == "index") \
                and self.types(f.args[0]) == {"ndarray"}:
            f = mk("attr", self.val(f.args[0]), f.args[1])   # what the array holds now
        t = mk("call", f, vals, kw, self.uid(node))
        self.emit("call", t, node, args=tuple(args), kwargs=dict(kwargs), f=f)
        if not X.never_raises(f) and (self.expand is None or not self.trys or self.fails(t) is not False):
            self.do_raise(node, what=t)
        # callbacks handed out may be run by the callee
        for a in list(args) + list(kwargs.values()):
            if a.op == "closure" and not is_glob(f, "functools.partial"):
                self.run_callback(a, node)
        X.effects(self, f, args, kwargs, t, node)
        return X.result(self, t)

    def run_callback(self, clo, node):
        fn = self.func_of(clo)
        if fn is None or any(fr.func is fn for fr in self.frames):
            return
        a = fn.node.args
        n = len(a.posonlyargs + a.args) - len(clo.args[2])
        args = [mk("cbarg", self.uid(node), i) for i in range(n)]
        pre = self.st
        self.st = pre.with_fact(mk("opq", "callback", self.uid(node)), True)
        try:
            self.inline(clo, args, {}, node)
            post = self.st
        except DeadPath:
            post = None
        self.st = self.join(mk("opq", "callback", self.uid(node)), post, pre) if post is not None else pre
        self.st.facts = pre.facts

    # ------------------------------------------------------------------ entry points
    def run(self, source, params=None, assume=None, filename="<scenario>", opaque=(), expand=None):
        """Analyse a driver snippet whose free names are symbolic parameters.

        *params*: {name: dict(types=..., attrs=..., truthy=...)} or Term.
        Returns a Result with value, events, final state and exceptional exits.
        """
        tree = ast.parse(source, filename)
        self.st = self.base.copy()
        self.events, self.exc_exits, self.trys = [], [], []
        self.catch_key = []
        self.opaque_fns = frozenset(opaque)
        self.loopstack, self.itpath, self.ctx = [], (), 0
        self.breaks, self.continues = [], []
        self.assume = assume
        self.expand = expand
        self.notes = []
        self.steps = 0
        self.analysed = set()
        m = self.mods[PKG]
        fid = ("scenario", source)
        self._frame_meta[fid] = m.fid
        src = type("S", (), {})()
        src.package, src.name = PKG, "<scenario>"
        mod = type("M", (), {})()
        mod.src, mod.name, mod.rel, mod.fid = src, "<scenario>", "<scenario>", m.fid
        env = {"np": glob("numpy"), "pv": glob("pyvista")}
        ex = self.mods.get(PKG + ".examples")
        syms = {}
        for k, spec in (params or {}).items():
            if isinstance(spec, Term):
                env[k] = spec
                syms[k] = spec
                continue
            t = mk("sym", k)
            info = dict(spec or {})
            if "types" in info and info["types"] is not None:
                info["types"] = frozenset(X.expand_tags(info["types"]))
            self.sym_info[t] = info
            env[k] = t
            syms[k] = t
        self.st.envs[fid] = env
        fr = Frame(fid=fid, func=None, mod=mod, parent=m.fid, returns=[], depth=0, name="<scenario>")
        self.frames = [fr]
        value = None
        try:
            for s in tree.body:
                if isinstance(s, ast.Expr):
                    value = self.expr(s.value)
                else:
                    self.stmt(s)
            final = self.st
        except DeadPath:
            final, value = None, None
        return Result(self, value, list(self.events), final, list(self.exc_exits), syms, dict(self.st.envs.get(fid, {})) if self.st else {})


def repr_key(k):
    return str(k[0]) + ":" + ",".join(str(id(x)) if isinstance(x, Term) else str(x) for x in k[1:])


class Result:
    def __init__(self, ip, value, events, final, exc_exits, syms, env):
        self.ip, self.value, self.events, self.final = ip, value, events, final
        self.exc_exits, self.syms, self.env = exc_exits, syms, env
        self.analysed = set(ip.analysed)
        self.notes = list(ip.notes)
        self.steps = ip.steps

    def read(self, src):
        """Evaluate an expression in the final state of the scenario."""
        ip = self.ip
        ip.st = self.final.copy()
        ip.events_saved = ip.events
        ip.events = []
        ip.muted += 1
        fid = next(f for f in self.final.envs if f[0] == "scenario" and self.final.envs[f].get("np") is not None)
        m = ip.mods[PKG]
        mod = type("M", (), {})()
        s = type("S", (), {})()
        s.package, s.name = PKG, "<scenario>"
        mod.src, mod.name, mod.rel, mod.fid = s, "<scenario>", "<scenario>", m.fid
        ip.frames = [Frame(fid=fid, func=None, mod=mod, parent=m.fid, returns=[], depth=0, name="<scenario>")]
        try:
            return ip.val(ip.expr(ast.parse(src, mode="eval").body))
        except DeadPath:
            return None
        finally:
            ip.muted -= 1
            ip.events = ip.events_saved
