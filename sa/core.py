"""Index of the analysed repository: modules, classes (with MRO), functions, imports."""
from __future__ import annotations

import ast
import os


class AnalysisBroken(Exception):
    """The analysed program no longer has the anchor a rule is keyed on."""


class FuncInfo:
    def __init__(self, name, node, module, cls=None):
        self.name, self.node, self.module, self.cls = name, node, module, cls
        self.qual = f"{cls.qual if cls else module.name}.{name}"

    @property
    def decorators(self):
        out = []
        for d in getattr(self.node, "decorator_list", []):
            f = d.func if isinstance(d, ast.Call) else d
            out.append(ast.unparse(f))
        return out

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return any(d == "property" or d.endswith("cached_property") for d in self.decorators)

    @property
    def is_ctxmanager(self):
        return any(d.split(".")[-1] == "contextmanager" for d in self.decorators)

    @property
    def is_abstract(self):
        """Abstract and without a body of its own (one that only documents, passes or raises)."""
        return any(d.split(".")[-1] == "abstractmethod" for d in self.decorators) and all(
            isinstance(s, (ast.Pass, ast.Raise)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            for s in self.node.body)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def loc(self, node=None):
        n = node if node is not None else self.node
        return f"{self.module.rel}:{getattr(n, 'lineno', '?')}"

    def __repr__(self):
        return f"<func {self.qual}>"


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.qual = f"{module.name}.{name}"
        self.methods = {}
        self.class_assigns = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = FuncInfo(st.name, st, module, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.class_assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.class_assigns[st.target.id] = st.value

    def mro(self, repo):
        out, todo = [], [self]
        seen = set()
        # simple C3-compatible DFS (the repository has single-inheritance hierarchies)
        while todo:
            c = todo.pop(0)
            if c.qual in seen:
                continue
            seen.add(c.qual)
            out.append(c)
            for b in c.node.bases:
                r = repo.resolve_expr(c.module, b)
                if r and r[0] == "class":
                    todo.append(r[1])
        return out

    def ext_bases(self, repo):
        out = []
        for c in self.mro(repo):
            for b in c.node.bases:
                r = repo.resolve_expr(c.module, b)
                if r and r[0] == "ext":
                    out.append(r[1])
        return out

    def find(self, repo, name, after=None):
        mro = self.mro(repo)
        if after is not None:
            quals = [c.qual for c in mro]
            mro = mro[quals.index(after.qual) + 1:] if after.qual in quals else mro
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def __repr__(self):
        return f"<class {self.qual}>"


class Module:
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.is_pkg = path.endswith("__init__.py")
        self.tree = ast.parse(src, filename=path)
        self.names = {}      # name -> ('func',FuncInfo)|('class',ClassInfo)|('import',dotted)|('from',mod,name)|('var',expr)
        self._scan(self.tree.body)
        for f in ast.walk(self.tree):
            glob = {x for n in ast.walk(f) if isinstance(n, ast.Global) for x in n.names} if isinstance(f, ast.FunctionDef) else ()
            for n in ast.walk(f) if glob else ():
                if isinstance(n, (ast.Import, ast.ImportFrom)):     # imported on first use
                    for k, v in import_bindings(n, self).items():
                        old = self.names.get(k)
                        if k in glob and (old is None or old[0] == "var" and isinstance(old[1], ast.Constant) and old[1].value is None):
                            self.names[k] = v
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[st.name] = ("func", FuncInfo(st.name, st, self))
            elif isinstance(st, ast.ClassDef):
                self.names[st.name] = ("class", ClassInfo(st.name, st, self))
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for k, v in import_bindings(st, self).items():
                    self.names[k] = v
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("var", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.names[st.target.id] = ("var", st.value)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    self._scan(h.body)
                self._scan(st.orelse)
                self._scan(st.finalbody)
            elif isinstance(st, ast.With):
                self._scan(st.body)


def import_bindings(st, module):
    out = {}
    if isinstance(st, ast.Import):
        for a in st.names:
            if a.asname:
                out[a.asname] = ("import", a.name)
            else:
                out[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
    else:
        base = st.module or ""
        if st.level:
            pk = module.name.split(".")
            if not module.is_pkg:
                pk = pk[:-1]
            pk = pk[: len(pk) - (st.level - 1)]
            base = ".".join(pk + ([base] if base else []))
        for a in st.names:
            out[a.asname or a.name] = ("from", base, a.name)
    return out


class Repo:
    def __init__(self, root="/repo", package="dattri"):
        self.root = root
        self.modules = {}
        self.broken = []
        for dp, dn, fn in os.walk(os.path.join(root, package)):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[: -len(".__init__")]
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                    self.modules[name] = Module(name, p, rel, src)

    # ---- resolution
    def resolve(self, module, name, _depth=0):
        """Resolve a global name of ``module`` to its definition."""
        if _depth > 12:
            return None
        b = module.names.get(name)
        if b is None:
            sm = self.modules.get(f"{module.name}.{name}")
            if sm is not None:
                return ("mod", sm.name)
            return None
        return self.resolve_binding(b, module, _depth)

    def resolve_binding(self, b, module, _depth=0):
        k = b[0]
        if k == "func":
            return ("func", b[1])
        if k == "class":
            return ("class", b[1])
        if k == "var":
            return ("var", module, b[1])
        if k == "import":
            if b[1] in self.modules:
                return ("mod", b[1])
            if b[1].split(".")[0] == "dattri":
                return ("mod", b[1])
            return ("ext", b[1])
        if k == "from":
            if b[1] in self.modules:
                m = self.modules[b[1]]
                if b[2] in m.names:
                    return self.resolve(m, b[2], _depth + 1)
                if f"{b[1]}.{b[2]}" in self.modules:
                    return ("mod", f"{b[1]}.{b[2]}")
                return ("ext", f"{b[1]}.{b[2]}")
            if f"{b[1]}.{b[2]}" in self.modules:
                return ("mod", f"{b[1]}.{b[2]}")
            return ("ext", f"{b[1]}.{b[2]}")
        return None

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Name):
            return self.resolve(module, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(module, e.value)
            if r is None:
                return None
            return self.member(r, e.attr)
        return None

    def member(self, r, name):
        if r[0] == "mod":
            m = self.modules.get(r[1])
            if m is not None:
                x = self.resolve(m, name)
                if x is not None:
                    return x
                if f"{r[1]}.{name}" in self.modules:
                    return ("mod", f"{r[1]}.{name}")
            return ("ext", f"{r[1]}.{name}")
        if r[0] == "ext":
            return ("ext", f"{r[1]}.{name}")
        if r[0] == "class":
            f = r[1].find(self, name)
            if f is not None:
                return ("func", f)
        return None

    # ---- anchors
    def cls(self, qual):
        m, n = qual.rsplit(".", 1)
        mod = self.modules.get(m)
        if mod is None:
            raise AnalysisBroken(f"module {m} not found")
        r = self.resolve(mod, n)
        if not r or r[0] != "class":
            raise AnalysisBroken(f"class {qual} not found")
        return r[1]

    def func(self, qual):
        m, n = qual.rsplit(".", 1)
        if m in self.modules:
            r = self.resolve(self.modules[m], n)
            if r and r[0] == "func":
                return r[1]
        m2, c = m.rsplit(".", 1)
        if m2 in self.modules:
            r = self.resolve(self.modules[m2], c)
            if r and r[0] == "class":
                f = r[1].find(self, n)
                if f:
                    return f
        raise AnalysisBroken(f"function {qual} not found")

    def all_classes(self):
        for m in self.modules.values():
            for b in m.names.values():
                if b[0] == "class":
                    yield b[1]

    def all_functions(self):
        """Every function/method/nested function of the repository."""
        for m in self.modules.values():
            owner = {}
            for b in m.names.values():
                if b[0] == "class":
                    for f in b[1].methods.values():
                        owner[id(f.node)] = f
                elif b[0] == "func":
                    owner[id(b[1].node)] = b[1]
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if id(n) in owner:
                        yield owner[id(n)]
                    else:
                        f = FuncInfo(n.name, n, m)
                        p = n
                        names = [n.name]
                        while getattr(p, "_parent", None) is not None:
                            p = p._parent
                            if isinstance(p, (ast.FunctionDef, ast.ClassDef)):
                                names.append(p.name)
                        f.qual = m.name + "." + ".".join(reversed(names))
                        yield f

    def subclasses(self, base):
        out = []
        for c in self.all_classes():
            if c is not base and any(x.qual == base.qual for x in c.mro(self)):
                out.append(c)
        return sorted({c.qual: c for c in out}.values(), key=lambda c: c.qual)
