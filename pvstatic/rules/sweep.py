"""Where MeshExtrude puts the end of each item."""
from __future__ import annotations

from ..algebra import NF, ONE, ZERO
from ..arrays import Unknown
from ..terms import NONE, const, cval, is_glob, mk

ASIS = {"numpy.asarray", "numpy.asanyarray", "numpy.array", "numpy.ravel", "builtins.tuple", "builtins.list", "numpy.copy", "builtins.float",
        "numpy.float64", "numpy.squeeze", "typing.cast"}


class Placed:
    """Points s R (P - C) + d of a mesh: P the points and C the center of the mesh given, R the rotations so far."""

    def __init__(self, s, rot, d):
        self.s, self.rot, self.d = s, rot, d

    def moved(self, v):
        return Placed(self.s, self.rot, self.d + v)

    def scaled(self, k, x=ZERO):
        return Placed(self.s * k, self.rot, (self.d - x) * k + x)

    def turned(self, axis, angle, x):
        if angle == ZERO:
            return self
        return Placed(self.s, self.rot + ((axis, angle),), x + turn(axis, angle, self.d - x))

    @property
    def center(self):
        """Center of the bounding box: d unless the mesh was turned."""
        return self.d if not self.rot else self.d + self.s * NF.of(("center", self.rot))

    @property
    def mean(self):
        if self.rot:
            raise Unknown()
        return self.s * (NF.of("M") - NF.of("C")) + self.d

    def same(self, o):
        return self.s == o.s and self.d == o.d and (self.s == ZERO or self.rot == o.rot)


def turn(axis, angle, x):
    """A rotation is linear: factors that are numbers come out."""
    out = ZERO
    for mono, k in x.m.items():
        num, vec = ONE, NF.of(k)
        for a, e in mono:
            for _ in range(e):
                if isinstance(a, str) and a[0] == "s":
                    num = num * NF.of(a)
                else:
                    vec = vec * NF.of(a)
        if vec == NF.of(k):
            raise Unknown()
        out = out + num * NF.of(("turned", axis, angle, vec))
    return out


START = Placed(ONE, (), NF.of("C"))


class Place:
    def __init__(self, ip, heap, base, names):
        self.ip, self.heap, self.base, self.names = ip, heap, base, names

    # -- meshes
    def mesh(self, t):
        pts = mk("attr", t, "points")
        p = self.heap.get(("attr", t, "points"), self.heap.get(("arr", pts)))
        if p is not None and p is not pts and t not in self.base:
            return self.points(p)
        return self.made(t)

    def made(self, t):
        if t in self.base:
            return START
        if t.op == "dup":
            return self.mesh(t.args[0])
        if t.op == "moved":
            return self.points(t.args[1])
        if t.op == "call" and t.args[0].op == "attr":
            b, n = t.args[0].args
            if n in ("copy", "cast_to_structured_grid", "cast_to_unstructured_grid"):
                return self.mesh(b)
            return self.move(n, self.mesh(b), t.args[1], dict(t.args[2]))
        raise Unknown()

    def move(self, n, m, args, kw):
        def arg(i, name, default=None):
            v = args[i] if len(args) > i else kw.get(name, default)
            if v is None or v.op == "star":
                raise Unknown()
            return v
        about = lambda i: ZERO if arg(i, "point", NONE) is NONE else self.vec(arg(i, "point"))  # noqa: E731
        if n == "translate":
            return m.moved(self.vec(arg(0, "xyz")))
        if n == "scale":
            return m.scaled(self.vec(arg(0, "xyz")), ZERO if kw.get("point", NONE) is NONE else self.vec(kw["point"]))
        if n == "rotate_vector":
            return m.turned(self.vec(arg(0, "vector")), self.vec(arg(1, "angle")), about(2))
        if n in ("rotate_x", "rotate_y", "rotate_z"):
            return m.turned(NF.of(n[-1] + " axis"), self.vec(arg(0, "angle")), about(1))
        raise Unknown()

    # -- arrays of points
    def points(self, t):
        if t.op == "attr" and t.args[1] == "points":
            return self.made(t.args[0])
        if t.op == "dup":
            return self.points(t.args[0])
        if t.op == "call":
            f = t.args[0]
            if f.op == "glob" and f.args[0].startswith("pvmodel."):
                return self.move(f.args[0][8:], self.points(t.args[1][0]), t.args[1][1:], dict(t.args[2]))
            if f.op == "glob" and f.args[0] in ASIS and t.args[1]:
                return self.points(t.args[1][-1])
            if f.op == "attr" and f.args[1] in ("copy", "astype"):
                return self.points(f.args[0])
        if t.op == "bin" and t.args[0] in "+-*/":
            o, a, b = t.args[:3]
            try:
                p = self.points(a)
            except Unknown:
                if o not in "+*":
                    raise
                p, a, b = self.points(b), b, a
            k = self.vec(b)
            if o == "+":
                return p.moved(k)
            if o == "-":
                return p.moved(-k)
            if o == "*":
                return p.scaled(k)
        raise Unknown()

    # -- vectors and numbers, component by component
    def vec(self, t):
        if t in self.names:
            return self.names[t]
        if t.op == "const" and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
            return NF.of(cval(t))
        if t.op in ("tuple", "list") and t.args and all(x.op == "const" for x in t.args) and len(set(t.args)) == 1:
            return self.vec(t.args[0])
        if t.op == "attr" and t.args[1] == "center":
            return self.mesh(t.args[0]).center
        if t.op == "dup":
            return self.vec(t.args[0])
        if t.op == "un" and t.args[0] == "-":
            return -self.vec(t.args[1])
        if t.op == "bin" and t.args[0] in "+-*":
            a, b = self.vec(t.args[1]), self.vec(t.args[2])
            return a + b if t.args[0] == "+" else a - b if t.args[0] == "-" else a * b
        if t.op == "call":
            f, args, kw = t.args[0], t.args[1], dict(t.args[2])
            if is_glob(f, "numpy.mean") or f.op == "attr" and f.args[1] == "mean":
                ax = kw.get("axis", args[-1] if args else None)
                if ax is const(0):
                    return self.points(args[0] if f.op == "glob" else f.args[0]).mean
            if f.op == "glob" and f.args[0] in ASIS and args:
                return self.vec(args[-1])
            if f.op == "attr" and f.args[1] in ("copy", "astype", "ravel", "tolist"):
                return self.vec(f.args[0])
        raise Unknown()


def given(kind, name):
    return {"none": "None", "zero": "0.0", "value": name}[kind]


def effective(item, builder, i):
    if item != "none":
        return ZERO if item == "zero" else NF.of(i)
    return None if builder == "none" else ZERO if builder == "zero" else NF.of(i[0] + "0")


def run(rep, ip, tier):
    """The mesh of every item of MeshExtrude is followed from the mesh of the item before it through translations, scalings and
    rotations (about which point, along which axis) and compared with the definition, componentwise and exactly."""
    rep.rule("end = previous end + vector, scaled about its own center, then turned about the vector through that center")
    rep.rule("scale and angle of the item are used if given (zero included), else those of the builder, else none")
    rep.rule("each item fills the space between the previous end and its own end")
    kinds = ("none", "zero", "value")
    combos = [((a, b), ("none", "none")) for a in kinds for b in kinds] + [(("none", "none"), (a, b)) for a in kinds for b in kinds]
    combos += [((a, b), (c, d)) for a, b in (("value", "none"), ("none", "value"), ("value", "value"), ("zero", "value"))
               for c, d in (("value", "none"), ("none", "value"), ("value", "value"), ("zero", "value"))]
    combos = list(dict.fromkeys(combos))
    for mesh in ("StructuredGrid", "UnstructuredGrid", "ImageData", "RectilinearGrid"):
        for (s1, s0), (a1, a0) in combos:
            follow(rep, ip, mesh, s1, s0, a1, a0)


def number(x):
    return {"types": ["float"]}


def follow(rep, ip, mesh, s1, s0, a1, a0):
    key = f"{mesh}:scale={s1}/{s0}:angle={a1}/{a0}"
    label = f"MeshExtrude({mesh}; scale: item {s1}, builder {s0}; angle: item {a1}, builder {a0})"
    code = (f"b = MeshExtrude(m, scale={given(s0, 's0')}, angle={given(a0, 'a0')})\n"
            f"b.add(v1, 1, scale={given(s1, 's1')}, angle={given(a1, 'a1')})\n"
            f"b.add(v2, 1, scale={given(s1, 's2')}, angle={given(a1, 'a2')})\n"
            "q0, q1, q2 = b.items[0].mesh, b.items[1].mesh, b.items[2].mesh\n"
            "out = b.generate_mesh()\n")
    nums = [x for k, x in ((s0, "s0"), (s1, "s1"), (s1, "s2"), (a0, "a0"), (a1, "a1"), (a1, "a2")) if k == "value"]
    params = {"m": {"types": [mesh]}, "v1": {"types": ["ndarray"]}, "v2": {"types": ["ndarray"]}, **{x: {"types": ["float"]} for x in nums}}

    def assume(c, *a):
        if c.op == "truth" and c.args[0].op == "sym" and c.args[0].args[0] in nums:
            return True     # the values given are not special
        if c.op == "cmp" and c.args[0] in ("==", "!=") and any(x.op == "const" for x in c.args[1:3]) \
                and any(x.op == "sym" and x.args[0] in nums for x in c.args[1:3]):
            return c.args[0] == "!="
        return None
    ip.track_center = True
    try:
        r = ip.run(code, params, assume=assume, opaque=("generate_volume_from_two_surfaces", "merge"))
    finally:
        ip.track_center = False
    rep.saw(r)
    if r.final is None:
        rep.bad(key, label, f"{label}: refused")
        return
    qs = [r.env[f"q{i}"] for i in range(3)]
    names = {mk("sym", x): NF.of(x) for x in nums}
    names.update({mk("sym", f"v{i}"): NF.of(f"V{i}") for i in (1, 2)})
    ends = [placed(ip, r.final.heap, q, qs, names) for q in qs]
    judge(rep, ends[0], START, f"{key}:start", label, "start")
    for i in (1, 2):
        k = f"{key}:item{i}"
        if ends[i - 1] is None or ends[i] is None:
            rep.skip(k)
            continue
        v = NF.of(f"V{i}")
        want = ends[i - 1].moved(v)
        s, a = effective(s1, s0, f"s{i}"), effective(a1, a0, f"a{i}")
        if s is not None:
            want = want.scaled(s, want.center)
        if a is not None:
            want = want.turned(v, a, want.center)
        judge(rep, ends[i], want, k, label, f"end of item {i}")
    if s1 == "value" and a1 == "value":
        fills(rep, ip, r, qs, ends, names, key, label)


def placed(ip, heap, q, qs, names):
    base = [qs[0]]
    t = qs[0]
    while t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("copy", "cast_to_structured_grid"):
        t = t.args[0].args[0]
        base.append(t)
    if t.op != "sym":
        return None
    try:
        return Place(ip, heap, frozenset(base), names).mesh(q)
    except Unknown:
        return None


def judge(rep, got, want, key, label, what):
    if got is None or want is None:
        rep.skip(key)
        return
    rep.check(got.same(want), key, label, f"{label}: {what} is {show(got)}, should be {show(want)}")


def show(p):
    return f"{p.s} x (P - C) + {p.d}" + "".join(f", turned by {a} about {v}" for v, a in p.rot)


def fills(rep, ip, r, qs, ends, names, key, label):
    evs = [e for e in r.events if e.kind == "call_int" and e.extra["func"].qual.endswith("generate_volume_from_two_surfaces")]
    if len(evs) != 2:
        rep.skip(f"{key}:surfaces")
        return
    for i, e in enumerate(evs):
        env = e.extra["env"]
        for j, n in enumerate(("surface_a", "surface_b")):
            k = f"{key}:surface{i}{j}"
            got = placed(ip, e.heap, env[n], qs, names) if n in env else None
            judge(rep, got, ends[i + j], k, label, f"{'first' if j == 0 else 'second'} surface of item {i + 1}")
