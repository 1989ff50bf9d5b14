"""Constant folding of value-graph terms, given what some of their leaves are.

Used for finite domains (cell types, flags): the code's tables and the element expressions of generic loop iterations are
folded for each member of the domain, vertex numbers staying symbolic labels.
"""
from __future__ import annotations

import math
from fractions import Fraction

from .terms import Term, const, cval, is_glob, mk


class Unknown(Exception):
    pass


class Fails(Exception):
    """The folded operation certainly raises."""

    def __init__(self, what):
        super().__init__(what)
        self.what = what


class Label:
    """A symbolic vertex (or cell) number: only identity is known."""
    __slots__ = ("name", "plus")

    def __init__(self, name, plus=()):
        self.name, self.plus = name, tuple(sorted(plus))

    def key(self):
        return (self.name, self.plus)

    def __eq__(self, o):
        return isinstance(o, Label) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __lt__(self, o):
        return self.key() < o.key()

    def __gt__(self, o):
        return self.key() > o.key()

    def __repr__(self):
        return self.name + "".join(f"+{p}" for p in self.plus)


def seq(v):
    if isinstance(v, (list, tuple)):
        return list(v)
    raise Unknown()


def Term_types():
    """All the members of pyvista.CellType."""
    from .extmodel import CELLTYPES
    return mk("list", *[const(v) for v in sorted(set(CELLTYPES.values()))])


def depth(v):
    """Number of axes of a nested list (rectangular ones only)."""
    if not isinstance(v, list):
        return 0
    ds = {depth(x) for x in v}
    ls = {len(x) for x in v if isinstance(x, list)}
    if len(ds) > 1 or len(ls) > 1:
        raise Unknown()
    return 1 + (ds.pop() if ds else 0)


def shape(v):
    depth(v)
    out = []
    while isinstance(v, list):
        out.append(len(v))
        v = v[0] if v else None
    return tuple(out)


class Fold:
    def __init__(self, ip, leaf, heap=None, depth=400):
        self.ip, self.leaf, self.heap = ip, leaf, heap if heap is not None else (ip.st.heap if ip.st else {})
        self.loops = {}
        self.steps = {}
        self.open = set()
        self.memo = {}
        self.depth = depth
        if hasattr(leaf, "meshes"):
            leaf.fold = self

    def __call__(self, t):
        try:
            return self.deref(t)
        except RecursionError:
            raise Unknown()

    def deref(self, t):
        """What a name or a container refers to at this point; in the arguments of calls contents are already spelled out."""
        a = self.heap.get(("arr", t)) if t.op not in ("const", "store") else None
        if a is not None:
            return self.of(a)
        if t.op in ("list", "tuple") and not any(x.op == "star" for x in t.args) and self.leaf(t) is None:
            v = [self.deref(x) for x in t.args]
            return tuple(v) if t.op == "tuple" else v
        if t.op == "phi" and "absent" not in (t.args[1].op, t.args[2].op) and self.leaf(t) is None:
            try:
                c = self.truth(t.args[0])
            except Unknown:
                a, b = self.deref(t.args[1]), self.deref(t.args[2])
                if a == b and type(a) is type(b):
                    return a
                raise
            return self.deref(t.args[1] if c else t.args[2])
        return self.of(t)

    def of(self, t):
        v = self.leaf(t)
        if v is not None:
            return v
        f = getattr(self, "t_" + t.op, None)
        if f is None:
            raise Unknown()
        if t.op in ("const", "glob", "idx", "obj"):
            return f(t)
        dep = self.depends(t) if self.loops else ()
        key = (t, tuple(self.loops.items()) if dep is None else tuple((k, v) for k, v in self.loops.items() if k in dep))
        if key in self.memo:
            return self.memo[key]
        v = self.memo[key] = f(t)
        return v

    def depends(self, t):
        """The loops a term mentions; None when it may depend on any."""
        memo = self.ip.depends
        if t in memo:
            return memo[t]
        if t.op in ("mu", "obj"):
            memo[t] = None
            return None
        out = set()
        stack = list(t.args)
        while stack:
            x = stack.pop()
            if isinstance(x, Term):
                d = self.depends(x)
                if d is None:
                    out = None
                    break
                out |= d
            elif isinstance(x, tuple):
                if x and x[0] in ("for", "comp") and x in self.ip.loops:
                    out.add(x)
                else:
                    stack.extend(x)
        memo[t] = out
        return out

    def t_mu(self, t):
        """A variable of a loop over a known sequence: in the loop its value at the current iteration, else its last one."""
        L = t.args[0]
        if t not in self.ip.mu_next or L not in self.ip.loops or L[0] != "for":
            raise Unknown()
        n = self.loops.get(L)
        outer = tuple(sorted((repr(k), v) for k, v in self.loops.items() if k != L))
        if n is None:
            n = len(seq(self.iter(self.ip.loop_val.get(L, self.ip.loops[L][0]))))
        init, post = self.ip.mu_next[t]
        if (t, 0, outer) not in self.steps:
            old = self.loops.pop(L, None)
            self.steps[t, 0, outer] = self.of(init)
            if old is not None:
                self.loops[L] = old
        old = self.loops.get(L)
        try:
            for i in range(n):
                if (t, i + 1, outer) not in self.steps:
                    self.loops[L] = i
                    self.steps[t, i + 1, outer] = self.of(post)
        finally:
            if old is None:
                self.loops.pop(L, None)
            else:
                self.loops[L] = old
        return self.steps[t, n, outer]

    def t_dictset(self, t):
        d, k, v = self.of(t.args[0]), self.of(t.args[1]), self.of(t.args[2])
        if not isinstance(d, dict):
            raise Unknown()
        return {**d, k: v}

    def t_setdefault(self, t):
        d, k = self.of(t.args[0]), self.of(t.args[1])
        if not isinstance(d, dict):
            raise Unknown()
        return d[k] if k in d else self.of(t.args[2])

    def t_isinst(self, t):
        v, kinds = self.of(t.args[0]), t.args[1]
        kinds = set(kinds)
        if isinstance(v, (list, tuple)):
            if {"list", "tuple", "ndarray"} <= kinds:
                return True
            if kinds & {"list", "tuple", "ndarray"}:
                raise Unknown()
            return False
        for py, tags in ((str, {"str"}), (bool, {"bool", "int"}), (int, {"int"}), (float, {"float"}), (dict, {"dict"}), (set, {"set"})):
            if isinstance(v, py):
                return bool(kinds & tags)
        raise Unknown()

    # -- structure
    def t_glob(self, t):
        known = {"numpy.nan": math.nan, "math.nan": math.nan, "numpy.inf": math.inf, "math.inf": math.inf, "numpy.pi": math.pi,
                 "math.pi": math.pi}
        if t.args[0] in known:
            return known[t.args[0]]
        return Label("global " + t.args[0])

    def t_const(self, t):
        return cval(t)

    def t_tuple(self, t):
        return tuple(self.items(t.args))

    def t_list(self, t):
        return self.items(t.args)

    def t_set(self, t):
        return set(self.items(t.args))

    def items(self, args):
        out = []
        for x in args:
            if x.op == "star":
                out.extend(seq(self.of(x.args[0])))
            else:
                out.append(self.of(x))
        return out

    def t_flat(self, t):
        raise Unknown()

    def t_dict(self, t):
        out = {}
        for k, v in t.args:
            if k.op == "star":
                raise Unknown()
            out[self.of(k)] = v
        return {k: self.of(v) for k, v in out.items()}

    def t_obj(self, t):
        c = self.heap.get(("obj", t))
        if c is None or t in self.open:
            raise Unknown()
        self.open.add(t)
        try:
            return self.deref(c)
        finally:
            self.open.discard(t)

    def t_dup(self, t):
        return self.of(t.args[0])

    def t_append(self, t):
        return seq(self.of(t.args[0])) + [self.of(t.args[1])]

    def t_concat(self, t):
        return seq(self.of(t.args[0])) + seq(self.of(t.args[1]))

    def t_store(self, t):
        base, idx, v = t.args
        b, i, x = list(seq(self.of(base))), self.of(idx), self.of(v)
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], int) and all(isinstance(r, list) for r in b):
            if not -len(b) <= i[0] < len(b):
                raise Fails("IndexError")
            row = list(b[i[0]])
            if isinstance(i[1], slice):
                n = len(row[i[1]])
                if isinstance(x, (list, tuple)) and len(x) != n and len(x) != 1:
                    raise Fails("ValueError")
                x = list(x) * (n if len(x) != n else 1) if isinstance(x, (list, tuple)) else [x] * n
                row[i[1]] = x
            elif isinstance(i[1], int) and not isinstance(x, (list, tuple)):
                row[i[1]] = x
            else:
                raise Unknown()
            b[i[0]] = row
            return b
        if isinstance(i, tuple) and len(i) == 2 and b and all(isinstance(r, list) for r in b):
            return self.store2(b, i, x)
        if isinstance(i, int) and not isinstance(i, bool):
            b[i] = x
            return b
        if isinstance(i, slice):
            n = len(b[i])
            b[i] = list(x) if isinstance(x, (list, tuple)) and len(x) == n else [x] * n
            return b
        if isinstance(i, list) and all(isinstance(q, bool) for q in i) and not isinstance(x, (list, tuple)):
            return [x if m else y for m, y in zip(i, b)]
        if isinstance(i, list) and all(isinstance(q, int) for q in i) and not isinstance(x, (list, tuple)):
            for q in i:
                b[q] = x
            return b
        if isinstance(i, list) and isinstance(x, list) and depth(b) == depth(x):
            at = self.positions(i, len(b))
            if len(at) != len(x):
                raise Unknown()
            for q, y in zip(at, x):
                b[q] = y
            return b
        raise Unknown()

    @staticmethod
    def positions(k, n):
        """Positions an index selects along an axis of length n."""
        if isinstance(k, slice):
            return list(range(n))[k]
        if isinstance(k, list) and k and all(isinstance(q, bool) for q in k):
            if len(k) != n:
                raise Fails("IndexError")
            return [q for q, m in enumerate(k) if m]
        if isinstance(k, (list, tuple)) and all(isinstance(q, int) and not isinstance(q, bool) for q in k):
            if any(not -n <= q < n for q in k):
                raise Fails("IndexError")
            return [q % n for q in k]
        raise Unknown()

    def store2(self, b, i, x):
        """b[rows, cols] = x for a table b."""
        b = [list(r) for r in b]
        width = len(b[0])
        one = isinstance(i[1], int) and not isinstance(i[1], bool)
        if isinstance(i[0], (int, bool)) or (not one and not isinstance(i[0], slice) and not isinstance(i[1], slice)):
            raise Unknown()
        rows, cols = self.positions(i[0], len(b)), self.positions([i[1]] if one else i[1], width)
        if isinstance(x, list):
            d = depth(x)
            if one and d == 1 and len(x) == len(rows):
                x = [[y] for y in x]
            elif not one and d == 1 and len(x) == len(cols):
                x = [list(x)] * len(rows)
            elif not (not one and d == 2 and len(x) == len(rows) and len(x[0]) == len(cols)):
                raise Unknown()
        else:
            x = [[x] * len(cols)] * len(rows)
        for r, y in zip(rows, x):
            for c, z in zip(cols, y):
                b[r][c] = z
        return b

    # -- logic
    def t_phi(self, t):
        for one, other in ((1, 2), (2, 1)):
            # a value that is missing on one side (a loop that may not run): only the other side can be used
            if t.args[one].op == "absent":
                return self.of(t.args[other])
        try:
            c = self.truth(t.args[0])
        except Unknown:
            a, b = self.of(t.args[1]), self.of(t.args[2])
            if a == b and type(a) is type(b):
                return a
            raise
        return self.of(t.args[1] if c else t.args[2])

    def t_absent(self, t):
        raise Unknown()

    def truth(self, t):
        v = self.of(t)
        if isinstance(v, (bool, int, str, list, tuple, dict, set, float)) or v is None:
            if isinstance(v, list) and len(v) > 1:
                raise Unknown()
            return bool(v)
        raise Unknown()

    def t_truth(self, t):
        return self.truth(t.args[0])

    def t_not(self, t):
        v = self.of(t.args[0])
        if isinstance(v, list) and v:
            return self.invert(v)
        return not self.truth(t.args[0])

    def invert(self, v):
        if isinstance(v, list):
            return [self.invert(x) for x in v]
        if isinstance(v, bool):
            return not v
        raise Unknown()

    def t_and(self, t):
        res, unk = True, False
        for x in t.args:
            try:
                if not self.truth(x):
                    return False
            except Unknown:
                unk = True
        if unk:
            raise Unknown()
        return res

    def t_or(self, t):
        unk = False
        for x in t.args:
            try:
                if self.truth(x):
                    return True
            except Unknown:
                unk = True
        if unk:
            raise Unknown()
        return False

    def t_cmp(self, t):
        op, a, b = t.args[0], self.of(t.args[1]), self.of(t.args[2])
        if op in ("==", "!=") and isinstance(a, list) and isinstance(b, list) \
                and self.kind(t.args[1], a) == self.kind(t.args[2], b) == "list":
            return (a == b) == (op == "==")
        return self.compare(op, a, b)

    def compare(self, op, a, b):
        if op in ("in", "not in"):
            if isinstance(b, (dict, set, list, tuple, str)):
                r = a in b
                return r if op == "in" else not r
            raise Unknown()
        if op in ("is", "is not"):
            if a is None or b is None:
                r = a is b
                return r if op == "is" else not r
            raise Unknown()
        if isinstance(a, list) or isinstance(b, list):
            return self.broadcast(a, b, lambda x, y: self.compare(op, x, y))
        if isinstance(a, Label) or isinstance(b, Label):
            if op == "==":
                if a == b:
                    return True
            raise Unknown()
        try:
            return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b,
                    ">": lambda: a > b, ">=": lambda: a >= b}[op]()
        except (TypeError, KeyError):
            raise Unknown()

    # -- arithmetic
    def t_un(self, t):
        op, a = t.args[0], self.of(t.args[1])
        return self.unary(op, a)

    def unary(self, op, a):
        if isinstance(a, (list, tuple)):
            return [self.unary(op, x) for x in a]
        if isinstance(a, Label):
            raise Unknown()
        if op == "-":
            return -a
        if op == "~":
            return (not a) if isinstance(a, bool) else ~a
        if op == "+":
            return a
        raise Unknown()

    def broadcast(self, a, b, f):
        return self.pairup(a, b, depth(a), depth(b), f)

    def pairup(self, a, b, da, db, f):
        if da > db:
            return [self.pairup(x, b, da - 1, db, f) for x in a]
        if db > da:
            return [self.pairup(a, x, da, db - 1, f) for x in b]
        if da == 0:
            return f(a, b)
        d = da - 1
        if len(a) == len(b):
            return [self.pairup(x, y, d, d, f) for x, y in zip(a, b)]
        if len(a) == 1:
            return [self.pairup(a[0], y, d, d, f) for y in b]
        if len(b) == 1:
            return [self.pairup(x, b[0], d, d, f) for x in a]
        raise Unknown()

    def t_bin(self, t):
        if t.args[0] == "@":
            return self.c_numpy_dot([self.of(t.args[1]), self.of(t.args[2])], {})
        op, a, b = t.args[0], self.of(t.args[1]), self.of(t.args[2])
        if op in ("+", "*") and (isinstance(a, list) or isinstance(b, list)):
            ka, kb = self.kind(t.args[1], a), self.kind(t.args[2], b)
            if "array" not in (ka, kb) and not (op == "+" and "scalar" in (ka, kb)) \
                    and not (op == "*" and any(k == "scalar" and type(x) is not int for k, x in ((ka, a), (kb, b)))):
                if None in (ka, kb):
                    raise Unknown()
                if op == "+" and ka == kb == "list":
                    return a + b
                if op == "*" and ka == "list" and type(b) is int:
                    return a * b
                if op == "*" and kb == "list" and type(a) is int:
                    return b * a
                raise Unknown()
        return self.binary(op, a, b)

    def kind(self, t, v):
        """Whether a folded list stands for a list or for an array."""
        if not isinstance(v, list):
            return "scalar"
        ts = self.ip.types(t)
        if ts is not None and ts <= {"list"} or t.op == "attr" and t.args[1] == "point_ids":
            return "list"
        if ts is not None and "list" not in ts:
            return "array"
        if ts is None and t.op == "call":
            f = t.args[0]
            if f.op == "glob" and f.args[0].startswith("numpy."):
                return "array"
            if f.op == "attr" and f.args[1] in ("min", "max", "mean", "sum", "ravel", "reshape", "astype", "cumsum", "clip"):
                return "array"
        if ts is None and t.op in ("index", "elem"):
            while t.op in ("index", "elem"):
                t = t.args[0]
                if self.ip.types(t) == {"ndarray"}:
                    return "array"
        return None

    def binary(self, op, a, b):
        if isinstance(a, list) or isinstance(b, list):
            return self.broadcast(a, b, lambda x, y: self.binary(op, x, y))
        if isinstance(a, Label) or isinstance(b, Label):
            raise Unknown()
        try:
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "//":
                return a // b
            if op == "%":
                return a % b
            if op == "|":
                return a | b
            if op == "&":
                return a & b
            if op == "/" and isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
                return Fraction(a) / b
            if op == "/" and isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)):
                return a / b
            if op == "**" and isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)):
                if isinstance(a, float) or b == int(b):
                    out = a ** (int(b) if b == int(b) else b)
                else:
                    out = float(a) ** float(b)
                if isinstance(out, complex):
                    raise Unknown()
                return out
        except ZeroDivisionError:
            if op == "/" and not isinstance(a, bool) and not isinstance(b, bool):
                # what an array division leaves; a scalar one raises
                return math.nan if not a or a != a else math.copysign(math.inf, a)
            raise Unknown()
        except Exception:
            raise Unknown()
        raise Unknown()

    # -- loops
    def t_idx(self, t):
        L = t.args[0]
        if L in self.loops:
            return self.loops[L]
        raise Unknown()

    def t_elem(self, t):
        it, L = t.args
        if L not in self.loops:
            raise Unknown()
        return self.nth(self.of(it), self.loops[L])

    def t_key(self, t):
        it, L = t.args
        if L not in self.loops:
            raise Unknown()
        d = self.of(it)
        return self.nth(list(d), self.loops[L])

    def nth(self, v, i):
        if isinstance(v, dict):
            v = list(v)
        try:
            return seq(v)[i]
        except IndexError:
            raise Unknown()

    def t_comp(self, t):
        kind, x, L, it, cond = t.args
        n = len(seq(self.iter(it)))
        out = []
        old = self.loops.get(L)
        for i in range(n):
            self.loops[L] = i
            if not self.truth(cond):
                continue
            if x.op == "flat":
                for y in x.args:
                    if y.op == "star":
                        out.extend(seq(self.of(y.args[0])))
                    else:
                        out.append(self.of(y))
            else:
                out.append(self.of(x))
        if old is None:
            self.loops.pop(L, None)
        else:
            self.loops[L] = old
        if kind == "dict":
            return {k: v for k, v in out}
        if kind == "set":
            return set(out)
        return out

    def iter(self, it):
        v = self.of(it)
        return list(v) if isinstance(v, (dict, set, str)) else v

    # -- items and attributes
    def t_index(self, t):
        if is_glob(t.args[0], "pyvista.CellType"):
            from .extmodel import CELLTYPES
            n = self.of(t.args[1])
            if not isinstance(n, str):
                raise Unknown()
            if n not in CELLTYPES:
                raise Fails("KeyError")
            return CELLTYPES[n]
        b, k = self.of(t.args[0]), self.of(t.args[1])
        return self.pick(b, k)

    def pick(self, b, k):
        if isinstance(b, dict):
            if isinstance(k, (list, Label)):
                raise Unknown()
            if k not in b:
                raise Fails("KeyError")
            return b[k]
        if isinstance(b, (list, tuple, str)):
            if isinstance(k, bool):
                raise Unknown()
            if isinstance(k, int):
                if not -len(b) <= k < len(b):
                    raise Fails("IndexError")
                return b[k]
            if isinstance(k, slice):
                return b[k]
            if isinstance(k, list):
                if k and all(isinstance(q, bool) for q in k):
                    return [x for x, m in zip(b, k) if m]
                return [self.pick(b, q) for q in k]
            if isinstance(k, tuple) and any(q is None for q in k) and isinstance(b, list):
                return self.basic(b, list(k))
            if isinstance(k, tuple) and len(k) == 2 and isinstance(b, list) and all(isinstance(r, list) for r in b):
                if isinstance(k[0], (list, tuple)) and isinstance(k[1], (list, tuple)):
                    rows, cols = self.positions(k[0], len(b)), self.positions(k[1], len(b[0]) if b else 0)
                    if len(rows) != len(cols):
                        raise Unknown()
                    return [b[r][c] for r, c in zip(rows, cols)]
                rows = self.pick(b, k[0]) if not isinstance(k[0], int) else [b[k[0]]]
                cols = [self.pick(r, k[1]) for r in rows]
                return cols if not isinstance(k[0], int) else cols[0]
        raise Unknown()

    def basic(self, b, ks):
        if not ks:
            return b
        k = ks[0]
        if k is None:
            return [self.basic(b, ks[1:])]
        if not isinstance(b, list):
            raise Unknown()
        if isinstance(k, slice):
            return [self.basic(x, ks[1:]) for x in b[k]]
        if isinstance(k, int) and not isinstance(k, bool) and -len(b) <= k < len(b):
            return self.basic(b[k], ks[1:])
        raise Unknown()

    def t_fstr(self, t):
        out = []
        for x in t.args:
            v = self.of(x)
            if not isinstance(v, (str, int)):
                raise Unknown()
            out.append(str(v))
        return "".join(out)

    def t_slice(self, t):
        return slice(*[self.of(x) for x in t.args])

    def t_attr(self, t):
        b, n = t.args
        if n == "kind" and b.op == "attr" and b.args[1] == "dtype":
            v = self.of(b.args[0])
            flat = [y for x in seq(v) for y in (x if isinstance(x, list) else [x])]
            for py, k in ((bool, "b"), (int, "i"), (float, "f"), (str, "U"), (Label, "f")):
                if flat and all(isinstance(x, py) for x in flat):
                    return k
            raise Unknown()
        v = self.of(b)
        if n == "size" and isinstance(v, list):
            return len(self.m_ravel(v, [], {}))
        if n == "T" and isinstance(v, list) and v and all(isinstance(r, (list, tuple)) for r in v):
            return [list(c) for c in zip(*v)]
        if n == "shape" and isinstance(v, list):
            return shape(v)
        if n == "ndim" and isinstance(v, list):
            return depth(v)
        if n == "dtype" and isinstance(v, list):
            return Label("dtype")
        if isinstance(v, (int, float, Fraction, Label, str)) and n in ("shape", "ndim", "size"):
            return {"shape": (), "ndim": 0, "size": 1}[n]
        raise Unknown()

    # -- calls
    def t_call(self, t):
        f, args, kw = t.args[0], t.args[1], dict(t.args[2])
        if f.op == "glob":
            name = f.args[0]
            g = getattr(self, "c_" + name.replace(".", "_"), None)
            if g is None:
                raise Unknown()
            if len(args) == 1 and is_glob(args[0], "pyvista.CellType") and name.startswith("builtins."):
                args = (Term_types(),)
            known = {k: self.of(v) for k, v in kw.items() if k != "dtype"}
            if kw.get("dtype") is not None and kw["dtype"].op == "glob":
                known["dtype"] = kw["dtype"].args[0]
            out = g(self.items(args), {k: v for k, v in known.items() if k != "dtype"})
            return self.cast(out, known.get("dtype"))
        if f.op == "attr":
            b, n = f.args
            g = getattr(self, "m_" + n, None)
            if g is None:
                raise Unknown()
            return g(self.of(b), self.items(args), {k: self.of(v) for k, v in kw.items()})
        raise Unknown()

    def cast(self, v, dtype):
        if dtype in ("builtins.bool", "numpy.bool_", "numpy.bool"):
            if isinstance(v, list):
                return [self.cast(x, dtype) for x in v]
            if isinstance(v, (int, float, bool)):
                return bool(v)
            raise Unknown()
        return v

    def c_builtins_len(self, a, k):
        if isinstance(a[0], (list, tuple, dict, set, str)):
            return len(a[0])
        raise Unknown()

    def c_builtins_int(self, a, k):
        if isinstance(a[0], int):
            return int(a[0])
        raise Unknown()

    def c_pyvista_CellType(self, a, k):
        return self.c_builtins_int(a, k)

    def c_builtins_list(self, a, k):
        return list(a[0]) if a and isinstance(a[0], (list, tuple, dict, set)) else [] if not a else seq(None)

    def c_builtins_tuple(self, a, k):
        return tuple(self.c_builtins_list(a, k))

    def c_builtins_set(self, a, k):
        return set(self.c_builtins_list(a, k))

    c_builtins_frozenset = c_builtins_set

    def c_builtins_dict(self, a, k):
        out = {}
        if a and isinstance(a[0], dict):
            out = dict(a[0])
        elif a:
            pairs = [seq(x) for x in seq(a[0])]
            if not all(len(x) == 2 for x in pairs):
                raise Unknown()
            out = {x[0]: x[1] for x in pairs}
        return {**out, **k}

    def c_builtins_sorted(self, a, k):
        if k:
            raise Unknown()
        v = self.c_builtins_list(a, k)
        if self.sortable(v):
            return sorted(v)
        raise Unknown()

    def c_builtins_reversed(self, a, k):
        return seq(a[0])[::-1]

    def c_builtins_range(self, a, k):
        if all(isinstance(x, int) for x in a):
            return list(range(*a))
        raise Unknown()

    def c_builtins_zip(self, a, k):
        return [tuple(x) for x in zip(*[seq(list(y) if isinstance(y, dict) else y) for y in a])]

    def c_builtins_enumerate(self, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        if not isinstance(start, int):
            raise Unknown()
        return [(i, x) for i, x in enumerate(seq(list(a[0]) if isinstance(a[0], dict) else a[0]), start)]

    def c_builtins_sum(self, a, k):
        v = seq(a[0])
        if all(isinstance(x, (int, bool)) for x in v):
            return sum(v)
        raise Unknown()

    def c_builtins_max(self, a, k):
        if len(a) == 1 and "default" in k:
            if not self.c_builtins_list(a, {}):
                return k["default"]
            k = {n: v for n, v in k.items() if n != "default"}
        v = list(a[0]) if len(a) == 1 and isinstance(a[0], (list, tuple, set)) else a
        if k.get("key") is not None or not v or not self.sortable(v):
            raise Unknown()
        return max(v)

    def c_builtins_min(self, a, k):
        if len(a) == 1 and "default" in k:
            if not self.c_builtins_list(a, {}):
                return k["default"]
            k = {n: v for n, v in k.items() if n != "default"}
        v = list(a[0]) if len(a) == 1 and isinstance(a[0], (list, tuple, set)) else a
        if k.get("key") is not None or not v or not self.sortable(v):
            raise Unknown()
        return min(v)

    @staticmethod
    def sortable(v):
        if v and all(isinstance(x, tuple) for x in v):
            return len({len(x) for x in v}) == 1 and all(Fold.sortable(c) for c in zip(*v))
        return any(all(isinstance(x, t) for x in v) for t in (Label, (int, float, Fraction), str))

    def c_builtins_any(self, a, k):
        return any(seq(a[0]))

    def c_builtins_all(self, a, k):
        return all(seq(a[0]))

    def c_itertools_pairwise(self, a, k):
        v = seq(a[0])
        return list(zip(v, v[1:]))

    def c_itertools_chain_from_iterable(self, a, k):
        return [y for x in seq(a[0]) for y in seq(x)]

    def c_numpy_array(self, a, k):
        def lists(v):
            return [lists(x) for x in v] if isinstance(v, (list, tuple)) else v
        return lists(a[0])

    c_numpy_asarray = c_numpy_asanyarray = c_numpy_array

    def fill(self, n, v):
        if isinstance(n, int):
            return [v] * n
        if isinstance(n, (tuple, list)) and len(n) == 2 and all(isinstance(x, int) for x in n):
            return [[v] * n[1] for _ in range(n[0])]
        if isinstance(n, (tuple, list)) and len(n) == 1:
            return [v] * n[0]
        raise Unknown()

    def c_numpy_zeros(self, a, k):
        return self.fill(a[0], 0)

    def c_numpy_ones(self, a, k):
        return self.fill(a[0], 1)

    def c_numpy_full(self, a, k):
        v, n = a[1] if len(a) > 1 else k["fill_value"], a[0]
        if isinstance(v, (list, tuple)):
            n = n[0] if isinstance(n, (list, tuple)) and len(n) == 1 else n
            if not isinstance(n, int) or len(v) not in (1, n) or depth(list(v)) != 1:
                raise Unknown()
            return list(v) * (n if len(v) == 1 else 1)
        return self.fill(n, v)

    def c_numpy_zeros_like(self, a, k):
        return [0] * len(seq(a[0]))

    def c_numpy_full_like(self, a, k):
        return [a[1]] * len(seq(a[0]))

    def c_numpy_arange(self, a, k):
        return self.c_builtins_range(a, k)

    def c_numpy_linspace(self, a, k):
        if k or len(a) != 3 or not isinstance(a[2], int) or a[2] < 2:
            raise Unknown()
        lo, hi = (Fraction(x) if isinstance(x, (int, float, Fraction)) else None for x in a[:2])
        if lo is None or hi is None:
            raise Unknown()
        return [lo + (hi - lo) * i / (a[2] - 1) for i in range(a[2])]

    def c_numpy_sort(self, a, k):
        if k or len(a) != 1 or depth(a[0]) != 1 or not self.sortable(a[0]):
            raise Unknown()
        return sorted(a[0])

    def c_numpy_shape(self, a, k):
        return shape(a[0])

    def c_numpy_ndim(self, a, k):
        return depth(a[0])

    def c_numpy_size(self, a, k):
        return len(self.m_ravel(a[0], [], {}))

    def c_numpy_cross(self, a, k):
        if k or len(a) != 2 or not all(isinstance(v, list) for v in a):
            raise Unknown()
        d = [depth(v) for v in a]
        if max(d) == 2 and min(d) in (1, 2):
            n = max(len(v) for v, q in zip(a, d) if q == 2)
            rows = [v if q == 2 else [v] for v, q in zip(a, d)]
            if any(len(r) not in (1, n) for r in rows):
                raise Unknown()
            rows = [r * (n if len(r) == 1 else 1) for r in rows]
            return [self.c_numpy_cross([p, q], {}) for p, q in zip(*rows)]
        if d != [1, 1] or not all(len(v) == 3 for v in a):
            raise Unknown()
        (x, y, z), (u, v, w) = a
        if any(isinstance(q, Label) for q in (x, y, z, u, v, w)):
            raise Unknown()
        return [y * w - z * v, z * u - x * w, x * v - y * u]

    def c_numpy_dot(self, a, k):
        if k or len(a) != 2 or any(depth(v) != 1 for v in a) or len(a[0]) != len(a[1]):
            raise Unknown()
        return sum(x * y for x, y in zip(*a))

    c_numpy_inner = c_numpy_vdot = c_numpy_dot

    def c_numpy_allclose(self, a, k):
        return all(self.m_ravel([self.c_numpy_isclose(a, k)], [], {}))

    def c_numpy_isclose(self, a, k):
        """Values that differ at all are taken to differ by more than the tolerance."""
        return self.compare("==", *a[:2])

    def c_numpy_array_equal(self, a, k):
        return shape(a[0]) == shape(a[1]) and self.c_numpy_allclose(a, k)

    def c_numpy_tile(self, a, k):
        v, n = a[0], a[1] if len(a) > 1 else k.get("reps")
        if isinstance(n, tuple) and len(n) == 1:
            n = n[0]
        if isinstance(n, int) and depth(v) == 1:
            return v * n
        if isinstance(n, tuple) and len(n) == 2 and n[1] == 1 and depth(v) == 2:
            return v * n[0]
        if isinstance(n, tuple) and len(n) == 2 and n[1] == 1 and depth(v) == 1:
            return [list(v) for _ in range(n[0])]
        raise Unknown()

    def c_numpy_repeat(self, a, k):
        v, n = a[0], a[1] if len(a) > 1 else k.get("repeats")
        if not isinstance(n, int) or depth(v) != 1 and (a[2] if len(a) > 2 else k.get("axis")) != 0:
            raise Unknown()
        return [x for x in v for _ in range(n)]

    def c_numpy_roll(self, a, k):
        v, n = seq(a[0]), a[1] if len(a) > 1 else k.get("shift")
        if not v:
            return []
        axis = k.get("axis", a[2] if len(a) > 2 else None)
        if not isinstance(n, int):
            raise Unknown()
        if isinstance(v[0], list) and axis != 0:
            if axis == 1 or axis == -1 and depth(v) == 2:
                return [self.c_numpy_roll([r, n], {}) for r in v]
            flat = self.m_ravel(v, [], {})
            n %= len(flat)
            return self.m_reshape(flat[-n:] + flat[:-n] if n else flat, [shape(v)], {})
        if axis not in (None, 0, -1):
            raise Unknown()
        n %= len(v)
        return v[-n:] + v[:-n] if n else v

    def c_numpy_append(self, a, k):
        if k or len(a) > 2:
            raise Unknown()
        return seq(a[0]) + (list(a[1]) if isinstance(a[1], (list, tuple)) else [a[1]])

    def c_numpy_insert(self, a, k):
        axis = k.get("axis", a[3] if len(a) > 3 else None)
        if set(k) - {"axis"} or not isinstance(a[1], int) or a[1] < 0:
            raise Unknown()
        v = list(seq(a[0]))
        if axis in (1, -1) and depth(v) == 2:
            new = a[2] if isinstance(a[2], (list, tuple)) else [a[2]] * len(v)
            if len(new) != len(v):
                raise Unknown()
            return [list(r[:a[1]]) + [x] + list(r[a[1]:]) for r, x in zip(v, new)]
        if axis not in (None, 0) or isinstance(a[2], (list, tuple)) or depth(v) != 1:
            raise Unknown()
        v.insert(a[1], a[2])
        return v

    def c_numpy_flip(self, a, k):
        if k or len(a) > 1:
            raise Unknown()
        return seq(a[0])[::-1]

    def c_numpy_column_stack(self, a, k):
        cols = []
        for x in seq(a[0]):
            x = seq(x)
            cols.extend([list(c) for c in zip(*x)] if x and all(isinstance(r, (list, tuple)) for r in x) else [x])
        if len({len(c) for c in cols}) != 1 or any(isinstance(x, (list, tuple)) for c in cols for x in c):
            raise Unknown()
        return [list(r) for r in zip(*cols)]

    def c_numpy_stack(self, a, k):
        ax = a[1] if len(a) > 1 else k.get("axis", 0)
        if ax == 0:
            return [list(seq(x)) for x in seq(a[0])]
        if ax == 1 and all(depth(list(x)) == 2 for x in seq(a[0])):
            return [[list(r) for r in rs] for rs in zip(*seq(a[0]))]
        if ax in (1, -1):
            return self.c_numpy_column_stack(a[:1], {})
        raise Unknown()

    def c_numpy_vstack(self, a, k):
        out = []
        for x in seq(a[0]):
            x = seq(x)
            out.extend(x) if x and isinstance(x[0], list) else out.append(x)
        return out

    def c_numpy_concatenate(self, a, k):
        if len(a) > 1 and a[1] != 0 or k.get("axis", 0) != 0:
            raise Unknown()
        return [y for x in seq(a[0]) for y in seq(x)]

    def c_numpy_hstack(self, a, k):
        if any(isinstance(y, list) for x in seq(a[0]) for y in (x if isinstance(x, list) else [])):
            raise Unknown()
        return self.c_numpy_concatenate(a, k)

    def c_numpy_logical_not(self, a, k):
        return self.unary("~", a[0])

    def c_numpy_logical_or(self, a, k):
        return self.binary("|", a[0], a[1])

    def c_numpy_logical_and(self, a, k):
        return self.binary("&", a[0], a[1])

    def c_numpy_isin(self, a, k):
        if set(k) - {"invert", "assume_unique"} or not isinstance(a[0], list) or depth(a[0]) != 1:
            raise Unknown()
        inv, v = bool(k.get("invert")), list(a[1])
        return [(x in v) != inv for x in a[0]]

    c_numpy_in1d = c_numpy_isin

    def c_numpy_max(self, a, k):
        return self.m_max(a[0], a[1:], k)

    c_numpy_amax = c_numpy_nanmax = c_numpy_max

    def c_numpy_min(self, a, k):
        return self.m_min(a[0], a[1:], k)

    c_numpy_amin = c_numpy_nanmin = c_numpy_min

    def c_numpy_ptp(self, a, k):
        return self.cols(a[0], a[1:], k, self.spread)

    def m_ptp(self, b, a, k):
        return self.cols(b, a, k, self.spread)

    @staticmethod
    def spread(v):
        if not v or not all(isinstance(x, (int, Fraction, float)) for x in v):
            raise Unknown()
        return max(v) - min(v)

    def c_itertools_combinations(self, a, k):
        import itertools
        v = list(a[0]) if isinstance(a[0], set) else seq(a[0])
        return list(itertools.combinations(v, a[1] if len(a) > 1 else k["r"]))

    def c_itertools_permutations(self, a, k):
        import itertools
        return list(itertools.permutations(seq(a[0]), *a[1:]))

    def c_numpy_abs(self, a, k):
        if isinstance(a[0], (list, tuple)):
            return [self.c_numpy_abs([x], k) for x in a[0]]
        if isinstance(a[0], (int, float, Fraction)):
            return abs(a[0])
        raise Unknown()

    def c_numpy_delete(self, a, k):
        axis = k.get("axis", a[2] if len(a) > 2 else None)
        v = list(seq(a[0]))
        at = self.positions(list(a[1]) if isinstance(a[1], (list, tuple)) else [a[1]], len(v[0]) if axis in (1, -1) and v else len(v))
        if axis in (1, -1) and depth(v) == 2:
            return [[x for i, x in enumerate(r) if i not in at] for r in v]
        if axis in (None, 0) and (axis == 0 or depth(v) == 1):
            return [x for i, x in enumerate(v) if i not in at]
        raise Unknown()

    def c_numpy_setdiff1d(self, a, k):
        if k:
            raise Unknown()
        return [x for x in self.c_numpy_unique([a[0]], {}) if x not in seq(a[1])]

    def c_numpy_argsort(self, a, k):
        v = seq(a[0])
        if set(k) - {"kind"} or len(a) > 1 or not all(isinstance(x, (int, Fraction, float)) and x == x for x in v):
            raise Unknown()
        return sorted(range(len(v)), key=lambda i: v[i])

    def m_argmax(self, b, a, k):
        if a or k or depth(b) != 1:
            raise Unknown()
        v = self.numbers(seq(b))
        return v.index(max(v))

    def m_argmin(self, b, a, k):
        if a or k or depth(b) != 1:
            raise Unknown()
        v = self.numbers(seq(b))
        return v.index(min(v))

    def c_numpy_argmax(self, a, k):
        return self.m_argmax(a[0], a[1:], k)

    def c_numpy_argmin(self, a, k):
        return self.m_argmin(a[0], a[1:], k)

    def m_argsort(self, b, a, k):
        return self.c_numpy_argsort([b, *a], k)

    def c_numpy_interp(self, a, k):
        if k or len(a) != 3:
            raise Unknown()
        x, xp, fp = (seq(v) if isinstance(v, (list, tuple)) else v for v in a)
        if not isinstance(xp, list) or not isinstance(fp, list) or len(xp) != len(fp) or not xp:
            raise Unknown()
        if any(not p <= q for p, q in zip(xp, xp[1:])):
            raise Unknown()
        steps = [p for p, q in zip(xp, xp[1:]) if p == q]

        def at(v):
            if any(abs(v - p) < 1e-9 for p in steps):
                raise Unknown()
            if v <= xp[0]:
                return fp[0]
            if v >= xp[-1]:
                return fp[-1]
            i = max(i for i in range(len(xp)) if xp[i] <= v)
            return fp[i] + Fraction(v - xp[i]) / (xp[i + 1] - xp[i]) * (fp[i + 1] - fp[i])
        return [at(v) for v in x] if isinstance(x, list) else at(x)

    def c_numpy_isnan(self, a, k):
        if isinstance(a[0], (list, tuple)):
            return [self.c_numpy_isnan([x], k) for x in a[0]]
        if isinstance(a[0], (int, float, Fraction)):
            return a[0] != a[0]
        raise Unknown()

    def c_numpy_isfinite(self, a, k):
        if isinstance(a[0], (list, tuple)):
            return [self.c_numpy_isfinite([x], k) for x in a[0]]
        if isinstance(a[0], (int, float, Fraction)):
            return a[0] == a[0] and abs(a[0]) != float("inf")
        raise Unknown()

    def each(self, f, v):
        return [self.each(f, x) for x in v] if isinstance(v, (list, tuple)) else f(v)

    def real(self, f, a, k):
        if k or len(a) != 1:
            raise Unknown()

        def one(x):
            if not isinstance(x, (int, float, Fraction)):
                raise Unknown()
            try:
                return f(float(x))
            except ValueError:
                return float("nan")
        return self.each(one, a[0])

    def c_numpy_sin(self, a, k):
        return self.real(math.sin, a, k)

    def c_numpy_cos(self, a, k):
        return self.real(math.cos, a, k)

    def c_numpy_arccos(self, a, k):
        return self.real(math.acos, a, k)

    def c_numpy_arctan2(self, a, k):
        if k or len(a) != 2:
            raise Unknown()
        return self.broadcast(a[0], a[1], self.atan2)

    @staticmethod
    def atan2(y, x):
        if not all(isinstance(v, (int, float, Fraction)) for v in (y, x)):
            raise Unknown()
        return math.atan2(y, x)

    c_math_atan2 = c_numpy_arctan2
    c_math_sin, c_math_cos, c_math_acos = c_numpy_sin, c_numpy_cos, c_numpy_arccos

    def c_numpy_sign(self, a, k):
        def one(x):
            if not isinstance(x, (int, float, Fraction)) or x != x:
                raise Unknown()
            return (x > 0) - (x < 0)
        return self.each(one, a[0])

    def c_numpy_square(self, a, k):
        return self.each(lambda x: self.binary("*", x, x), a[0])

    def c_numpy_indices(self, a, k):
        dims = a[0] if len(a) == 1 else None
        if k or not isinstance(dims, (list, tuple)) or not all(type(n) is int and 0 <= n < 1000 for n in dims):
            raise Unknown()

        def fill(d, at):
            return at if d == len(dims) else [fill(d + 1, i if d == axis else at) for i in range(dims[d])]
        out = []
        for axis in range(len(dims)):
            out.append(fill(0, 0))
        return out

    def c_numpy_expand_dims(self, a, k):
        axis = k.get("axis", a[1] if len(a) > 1 else None)
        n = len(shape(a[0]))
        if type(axis) is not int or not -n - 1 <= axis <= n:
            raise Unknown()
        axis = axis + n + 1 if axis < 0 else axis

        def put(v, d):
            return [v] if d == 0 else [put(x, d - 1) for x in v]
        return put(a[0], axis)

    def c_numpy_diff(self, a, k):
        axis = k.get("axis", -1)
        if set(k) - {"axis"} or len(a) != 1:
            raise Unknown()
        d = depth(a[0])
        if d == 1 or axis == 0:
            return [self.binary("-", y, x) for x, y in zip(a[0], a[0][1:])]
        if d == 2 and axis in (1, -1):
            return [self.c_numpy_diff([r], {}) for r in a[0]]
        raise Unknown()

    def c_numpy_cumsum(self, a, k):
        return self.m_cumsum(a[0], a[1:], k)

    def m_cumsum(self, b, a, k):
        if a or k or depth(b) != 1:
            raise Unknown()
        out = []
        for x in b:
            out.append(self.binary("+", out[-1], x) if out else x)
        return out

    def m_clip(self, b, a, k):
        lo, hi = (list(a) + [k.get("min"), k.get("max")])[:2] if not k else (k.get("min", a[0] if a else None), k.get("max", None))
        return self.each(lambda x: min(max(self.numbers([x])[0], lo), hi), b)

    def c_numpy_clip(self, a, k):
        return self.m_clip(a[0], a[1:], k)

    def c_numpy_broadcast_to(self, a, k):
        n = a[1] if len(a) > 1 else k["shape"]
        v = a[0]
        if isinstance(n, int):
            n = (n,)
        d = shape(v)
        if len(d) < len(n) and tuple(d) == tuple(n[len(n) - len(d):]):
            for q in reversed(n[:len(n) - len(d)]):
                v = [v] * q
            return v
        if tuple(d) == tuple(n):
            return v
        raise Unknown()

    def c_numpy_einsum(self, a, k):
        if k or len(a) != 3 or a[0] not in ("ij,ij->i", "ij, ij -> i") or depth(a[1]) != 2 or shape(a[1]) != shape(a[2]):
            raise Unknown()
        return [self.c_numpy_dot([p, q], {}) for p, q in zip(a[1], a[2])]

    def c_numpy_average(self, a, k):
        w = k.get("weights", a[2] if len(a) > 2 else None)
        axis = k.get("axis", a[1] if len(a) > 1 else None)
        if w is None:
            return self.m_mean(a[0], [], {"axis": axis})
        d, n = depth(a[0]), self.total(w)
        if depth(w) != 1 or n == 0:
            raise Unknown()
        if d == 1 and len(a[0]) == len(w):
            return self.binary("/", self.c_numpy_dot([a[0], list(w)], {}), n)
        if d == 2 and axis == 0 and len(a[0]) == len(w):
            return [self.binary("/", self.c_numpy_dot([list(c), list(w)], {}), n) for c in zip(*a[0])]
        raise Unknown()

    def c_numpy_mean(self, a, k):
        return self.m_mean(a[0], a[1:], k)

    def m_mean(self, b, a, k):
        return self.cols(b, a, k, lambda v: self.binary("/", self.total(v), len(v)))

    def c_numpy_sum(self, a, k):
        return self.m_sum(a[0], a[1:], k)

    def total(self, v):
        out = 0
        for x in v:
            out = self.binary("+", out, x)
        return out

    def c_numpy_sqrt(self, a, k):
        if isinstance(a[0], (list, tuple)):
            return [self.c_numpy_sqrt([x], k) for x in a[0]]
        if isinstance(a[0], (int, Fraction)) and a[0] >= 0:
            q = Fraction(a[0])
            n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if n * n == q.numerator and d * d == q.denominator:
                return Fraction(n, d)
        if isinstance(a[0], (int, float, Fraction)) and a[0] >= 0:
            return float(a[0]) ** 0.5
        raise Unknown()

    c_math_sqrt = c_numpy_sqrt

    def c_numpy_hypot(self, a, k):
        return self.c_numpy_sqrt([sum(self.binary("*", x, x) for x in a)], k)

    c_math_hypot = c_numpy_hypot

    def c_numpy_linalg_norm(self, a, k):
        if len(a) != 1 or set(k) - {"axis"}:
            raise Unknown()
        if k.get("axis") is not None:
            return self.cols(a[0], [], k, lambda v: self.c_numpy_hypot(list(v), {}))
        if depth(a[0]) != 1:
            raise Unknown()
        return self.c_numpy_hypot(seq(a[0]), k)

    def c_numpy_minimum(self, a, k):
        return self.c_builtins_min(a, k)

    def c_numpy_maximum(self, a, k):
        return self.c_builtins_max(a, k)

    c_numpy_absolute = c_builtins_abs = c_numpy_abs

    def c_numpy_reshape(self, a, k):
        return self.m_reshape(a[0], a[1:], k)

    def m_reshape(self, b, a, k):
        shape = list(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, list)) else list(a)
        if k or not shape or not all(isinstance(x, int) for x in shape):
            raise Unknown()
        flat = self.m_ravel(b, [], {})
        if shape.count(-1) > 1:
            raise Unknown()
        if -1 in shape:
            rest = 1
            for x in shape:
                rest *= x if x != -1 else 1
            if rest == 0 or len(flat) % rest:
                raise Unknown()
            shape[shape.index(-1)] = len(flat) // rest
        size = 1
        for x in shape:
            size *= x
        if size != len(flat):
            raise Fails("ValueError")
        for x in shape[:0:-1]:
            flat = [flat[i:i + x] for i in range(0, len(flat), x)] if x else flat
        return flat

    def c_numpy_unique(self, a, k):
        v = seq(a[0])
        if k or len(a) > 1 or not all(isinstance(x, (int, Fraction, float)) and x == x for x in v):
            raise Unknown()
        return sorted(set(v))

    def c_numpy_where(self, a, k):
        if len(a) != 3 or not isinstance(a[0], list):
            raise Unknown()
        at = lambda x, i: x[i] if isinstance(x, list) else x  # noqa: E731
        return [at(a[1], i) if m else at(a[2], i) for i, m in enumerate(a[0])]

    def c_numpy_flatnonzero(self, a, k):
        return [i for i, x in enumerate(seq(a[0])) if x]

    def m_copy(self, b, a, k):
        return list(b) if isinstance(b, list) else dict(b) if isinstance(b, dict) else seq(None)

    def m_tolist(self, b, a, k):
        return seq(b)

    def m_astype(self, b, a, k):
        return b

    @staticmethod
    def ints(v):
        if not v or not all(isinstance(x, int) for x in v):
            raise Unknown()
        return v

    def numbers(self, v):
        if not v or not all(isinstance(x, (int, Fraction, float)) and x == x for x in v):
            raise Unknown()
        return v

    def m_max(self, b, a, k):
        return self.cols(b, a, k, lambda v: max(self.numbers(v)))

    def m_min(self, b, a, k):
        return self.cols(b, a, k, lambda v: min(self.numbers(v)))

    def m_sum(self, b, a, k):
        return self.cols(b, a, k, self.total)

    def cols(self, b, a, k, f):
        ax = a[0] if a else k.get("axis")
        if isinstance(b, (int, float, Fraction)) and ax is None:
            b = [b]
        b = seq(b)
        if ax is None:
            return f(self.m_ravel(b, [], {}))
        d = depth(b)
        if type(ax) is not int or not -d <= ax < d or not b:
            raise Unknown()

        def over(v, at):
            if at:
                return [over(x, at - 1) for x in v]
            if depth(v) == 1:
                return f(list(v))
            if len({len(r) for r in v}) != 1:
                raise Unknown()
            return [over(list(c), 0) for c in zip(*v)]

        return over(b, ax % d)

    def m_any(self, b, a, k):
        return self.cols(b, a, k, lambda v: any(v))

    def m_all(self, b, a, k):
        return self.cols(b, a, k, lambda v: all(v))

    def c_numpy_any(self, a, k):
        return self.m_any(a[0], a[1:], k)

    def c_numpy_all(self, a, k):
        return self.m_all(a[0], a[1:], k)

    def m_startswith(self, b, a, k):
        if isinstance(b, str) and isinstance(a[0], (str, tuple)):
            return b.startswith(a[0])
        raise Unknown()

    def m_values(self, b, a, k):
        if isinstance(b, dict):
            return list(b.values())
        raise Unknown()

    def m_keys(self, b, a, k):
        if isinstance(b, dict):
            return list(b)
        raise Unknown()

    def m_items(self, b, a, k):
        if isinstance(b, dict):
            return list(b.items())
        raise Unknown()

    def m_get(self, b, a, k):
        if isinstance(b, dict):
            return b.get(*a)
        raise Unknown()

    def m_difference(self, b, a, k):
        return set(b).difference(*a)

    def m_union(self, b, a, k):
        return set(b).union(*a)

    def m_intersection(self, b, a, k):
        return set(b).intersection(*a)

    def m_issubset(self, b, a, k):
        return set(b).issubset(*a)

    def m_ravel(self, b, a, k):
        order = a[0] if len(a) == 1 and not k else k["order"] if set(k) == {"order"} and not a else "C" if not a and not k else None
        if order == "F":
            n = shape(b)
            if not n:
                raise Unknown()
            flat = self.m_ravel(b, [], {})
            if math.prod(n) != len(flat):
                raise Unknown()
            out = []
            for i in range(len(flat)):
                at = 0
                for d, m in enumerate(n):
                    i, j = divmod(i, m)
                    at += j * math.prod(n[d + 1:])
                out.append(flat[at])
            return out
        if order != "C":
            raise Unknown()
        out = []
        for x in seq(b):
            out += self.m_ravel(x, [], {}) if isinstance(x, (list, tuple)) else [x]
        return out

    m_flatten = m_ravel

    def c_numpy_ravel(self, a, k):
        if len({shape(x) for x in a[0] if isinstance(x, (list, tuple))}) > 1:
            raise Fails("ragged array")
        return self.m_ravel(a[0], a[1:], k)


def has_nan(x):
    if isinstance(x, (list, tuple, set)):
        return any(has_nan(y) for y in x)
    return isinstance(x, float) and x != x


def ordered(f):
    """Python and numpy order a NaN differently: nothing is said of it."""
    def g(self, *a):
        if any(has_nan(x) for x in a if isinstance(x, (list, tuple, float))):
            raise Unknown()
        return f(self, *a)
    return g


for _n in ("c_numpy_sort", "c_numpy_argsort", "c_numpy_lexsort", "c_numpy_unique", "c_numpy_argmax", "c_numpy_argmin",
           "m_argmax", "m_argmin", "m_argsort", "m_max", "m_min", "c_builtins_min", "c_builtins_max",
           "c_builtins_sorted", "c_numpy_minimum", "c_numpy_maximum", "c_numpy_searchsorted", "c_numpy_max",
           "c_numpy_min", "c_numpy_amax", "c_numpy_amin", "c_numpy_nanmax", "c_numpy_nanmin", "c_numpy_clip"):
    if hasattr(Fold, _n):
        setattr(Fold, _n, ordered(getattr(Fold, _n)))
