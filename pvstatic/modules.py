"""Source loader: parses every module of the analysed package (never imports it)."""
from __future__ import annotations

import ast
import hashlib
import os

from .desugar import rewrite

REPO = os.environ.get("PVG_REPO", "/repo")
PKG = "pvgridder"


class ModuleSrc:
    def __init__(self, name, path, is_pkg):
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = rewrite(ast.parse(self.source, path))
        self.package = name if is_pkg else name.rsplit(".", 1)[0]


class Sources:
    """All modules of the package found under REPO/pvgridder."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        root = os.path.join(self.repo, PKG)
        self.modules = {}
        digest = hashlib.sha256()
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.repo)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                name = rel[: -len(".__init__")] if is_pkg else rel
                m = ModuleSrc(name, path, is_pkg)
                self.modules[name] = m
                digest.update(name.encode() + b"\0" + m.source.encode() + b"\0")
        self.digest = digest.hexdigest()
        if PKG not in self.modules:
            raise RuntimeError(f"package {PKG} not found under {self.repo}")

    def rel(self, path):
        return os.path.relpath(path, self.repo)


def assigned_names(fn):
    """Names local to a function/lambda/comprehension body (its own scope only)."""
    out, nonloc = set(), set()
    a = fn.args
    for x in [*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg]:
        if x is not None:
            out.add(x.arg)

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    tgt(c.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add(al.asname or al.name.split(".")[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            nonloc.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        for c in ast.iter_child_nodes(n):
            visit(c)

    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for s in body:
        visit(s)
    return out - nonloc, nonloc
