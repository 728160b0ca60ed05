"""The source tree under analysis: parsed modules and a few syntactic facts."""

from __future__ import annotations

import ast
import os
import sys


class Project:
    def __init__(self, repo="/repo", package="pymap3d"):
        self.repo = repo
        self.package = package
        self.root = os.path.join(repo, "src", package)
        if not os.path.isdir(self.root):
            self.root = os.path.join(repo, package)
        self.trees, self.paths, self.source, self.pkgs, self.bad = {}, {}, {}, set(), {}
        for dp, dns, fns in os.walk(self.root):
            dns[:] = sorted(d for d in dns if d not in ("tests", "__pycache__"))
            for fn in sorted(fns):
                if not fn.endswith(".py"):
                    continue
                p = os.path.join(dp, fn)
                rel = os.path.relpath(p, os.path.dirname(self.root))[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                    self.pkgs.add(rel)
                with open(p, encoding="utf-8") as f:
                    src = f.read()
                self.source[rel] = src
                self.paths[rel] = os.path.relpath(p, repo)
                try:
                    self.trees[rel] = ast.parse(src, p)
                except SyntaxError as e:
                    self.bad[rel] = e
        self.known_external = set(sys.stdlib_module_names) | {"numpy", "astropy"}
        self._loops, self._locals, self._clos = {}, {}, {}
        self._gens = {}

    def locate(self, key):
        """'module.function' or 'module.Class.method' -> "src/pymap3d/module.py:line name" """
        parts = key.split(".")
        for i in range(len(parts), -1, -1):
            m = ".".join([self.package] + parts[:i])
            if m in self.trees:
                node, line = self.trees[m], 0
                for nm in parts[i:]:
                    nxt = [
                        n for n in ast.walk(node)
                        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == nm and n is not node
                    ]
                    if not nxt:
                        break
                    node = nxt[-1]
                    line = node.lineno
                return f"{self.path(m)}:{line} {key}" if line else f"{self.path(m)} {key}"
        return key

    def path(self, mod):
        return self.paths.get(mod, mod)

    def is_project(self, name):
        return name in self.trees

    def is_package(self, name):
        return name in self.pkgs

    def loop_no(self, mod, node):
        if mod not in self._loops:
            d = {}
            for fn in ast.walk(self.trees[mod]):
                if isinstance(fn, (ast.FunctionDef, ast.Module)):
                    k = 0
                    todo = list(fn.body)
                    while todo:
                        n = todo.pop(0)
                        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                            continue
                        if isinstance(n, (ast.For, ast.While)):
                            d[id(n)] = k
                            k += 1
                        todo = list(ast.iter_child_nodes(n)) + todo
            self._loops[mod] = d
        return self._loops[mod].get(id(node), 0)

    def is_generator(self, fn):
        """does the function itself contain a yield?"""
        r = self._gens.get(id(fn))
        if r is None:
            todo, r = list(ast.iter_child_nodes(fn)), False
            while todo and not r:
                n = todo.pop()
                r = isinstance(n, (ast.Yield, ast.YieldFrom))
                if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.GeneratorExp)):
                    todo += ast.iter_child_nodes(n)
            self._gens[id(fn)] = r
        return r

    def locals_of(self, fn):
        r = self._locals.get(id(fn))
        if r is not None:
            return r
        names, drop = set(), set()

        def targets(t):
            for n in ast.walk(t):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)

        def visit(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(n.name)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for m in ast.walk(n):
                    if isinstance(m, ast.NamedExpr):
                        targets(m.target)
                return
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                drop.update(n.names)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    names.add(a.asname or a.name.split(".")[0])
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                names.add(n.name)
            for c in ast.iter_child_nodes(n):
                visit(c)

        if not isinstance(fn, ast.Lambda):
            for s in fn.body:
                visit(s)
        a = fn.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x is not None:
                params.add(x.arg)
        r = frozenset(names - drop - params)
        self._locals[id(fn)] = r
        return r

    def has_closure(self, fn):
        r = self._clos.get(id(fn))
        if r is None:
            r = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(fn) if n is not fn)
            self._clos[id(fn)] = r
        return r
