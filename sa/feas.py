"""Can a set of branch facts hold together?

``Feas(repo)(interp, facts)`` -> False (cannot), True (can), None (unknown: the facts exclude
several values of something whose set of possible values is not visible).
"""
from __future__ import annotations

import ast

from .terms import NONE, alts, children, const, mk

TYPES = {"str", "int", "float", "bool", "dict", "list", "tuple", "set", "Tensor", "Path"}


class Feas:
    def __init__(self, repo):
        self.repo = repo
        self.root = None       # function entered (annotations of its parameters)
        self.memo = {}

    def enter(self, info):
        self.root = info
        self.memo = {}

    def __call__(self, i, facts):
        key = frozenset(facts)
        if key not in self.memo:
            self.memo[key] = self.decide(i, key)
        return self.memo[key]

    # ------------------------------------------------------------------
    def decide(self, i, facts):
        for t, v in facts:
            if (t, not v) in facts:
                return False
        env = {}
        excl, incl = {}, {}
        flat = set()
        todo = list(facts)
        while todo:
            t, v = todo.pop()
            if (t, v) in flat:
                continue
            flat.add((t, v))
            if t.op == "not":
                todo.append((t.args[0], not v))
            elif t.op == "and" and v or t.op == "or" and not v:
                todo += [(x, v) for x in t.args]
            elif t.op == "cmp" and t.args[0] in ("is not", "!=", "not in"):
                inv = {"is not": "is", "!=": "==", "not in": "in"}[t.args[0]]
                todo.append((mk("cmp", inv, t.args[1], t.args[2]), not v))
            elif t.op == "cmp" and t.args[0] == "<=":
                todo.append((mk("cmp", "<", t.args[2], t.args[1]), not v))
        for t, v in flat:
            if (t, not v) in flat:
                return False
        for t, v in flat:
            if t.op == "cmp" and t.args[0] in ("==", "is"):
                a, b = t.args[1], t.args[2]
                vals = self.values(b)
                if vals is None:
                    a, vals = b, self.values(a)
                if vals is None or len(vals) != 1:
                    continue
                (incl if v else excl).setdefault(a, []).append(vals)
            elif t.op == "cmp" and t.args[0] == "in":
                vals = self.members(i, t.args[2])
                if vals is not None:
                    (incl if v else excl).setdefault(t.args[1], []).append(vals)
        for a, sets in incl.items():
            s = set.intersection(*[set(x) for x in sets])
            for x in excl.get(a, ()):
                s -= set(x)
            if not s:
                return False
            if len(s) == 1:
                env[a] = next(iter(s))
        # compound facts
        known = {t: v for t, v in flat}
        for t, v in flat:
            if t.op == "and" and not v and all(holds(i, known, x) is True for x in t.args):
                return False
            if t.op == "or" and v and all(holds(i, known, x) is False for x in t.args):
                return False
            if t.op == "cmp" and t.args[0] == "<":
                l, r = (self.num(x, env) for x in t.args[1:])
                if l is not None and r is not None and (l < r) != v:
                    return False
            if t.op == "phi" and v is not None:
                # truth of a chosen value
                if all(self.const_truth(x) is (not v) for x in t.args):
                    return False
        res = True
        if any(flag(t) for t, v in flat):
            res = None           # a flag variable: which branch set it is not tracked
        # domains of values compared by equality
        for a, sets in excl.items():
            if a in incl:
                continue
            dom = self.domain(a)
            gone = set().union(*sets)
            if dom is not None:
                if not dom - gone:
                    return False
            elif len(sets) > 1 and any(isinstance(x[1], str) for x in gone):
                res = None
        # kinds
        kinds = {}
        for t, v in flat:
            if t.op == "isinstance":
                kinds.setdefault(t.args[0], []).append((t.args[1], v))
        for a, cs in kinds.items():
            ok = False
            for x in alts(a):
                if all(i.isinst(x, c) in (None, v) for c, v in cs):
                    ok = True
            if not ok:
                return False
            dom = self.types(a)
            if dom is not None:
                if not any(all((d in names(c)) == v for c, v in cs) for d in dom):
                    return False
            elif sum(1 for c, v in cs if not v) > 1 and not any(v for c, v in cs):
                res = None
        return res

    @staticmethod
    def const_truth(x):
        if x.op == "const":
            return bool(x.args[0])
        return None

    def num(self, t, env):
        if t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
            return t.args[0]
        v = env.get(t)
        if v is not None and v[0] == "c" and isinstance(v[1], (int, float)):
            return v[1]
        return None

    # ------------------------------------------------------------------ values
    def values(self, t):
        if t.op == "const":
            return {("c", t.args[0])}
        e = self.enum(t)
        return None if e is None else {e}

    def enum(self, t):
        if t.op == "attr" and t.args[0].op == "class":
            ms = self.enum_members(t.args[0].args[0])
            if ms and t.args[1] in ms:
                return ("e", t.args[0].args[0], t.args[1])
        return None

    def enum_members(self, qual):
        try:
            ci = self.repo.cls(qual)
        except Exception:
            return None
        bases = {ast.unparse(b).split(".")[-1] for c in ci.mro(self.repo) for b in c.node.bases}
        if not bases & {"Enum", "IntEnum", "StrEnum", "Flag"}:
            return None
        return {k for k in ci.class_assigns if not k.startswith("_")}

    def members(self, i, t):
        items = None
        if t.op in ("tuple", "list"):
            items = t.args
        elif t.op == "obj":
            items = i.S.heap.get(t.args[0], {}).get("items")
            if items is None and i.objs[t.args[0]]["kind"] in ("list", "set", "tuple"):
                items = [v for how, v in i.contents.get(t.args[0], ()) if how == "lit"] or None
        if items is None:
            return None
        out = set()
        for x in items:
            v = self.values(x)
            if v is None:
                return None
            out |= v
        return out

    # ------------------------------------------------------------------ domains
    def domain(self, t):
        a = self.annotation(t)
        out = set()
        for mod, d in (self.flat(a) if a else ()):
            if d is None:
                return None
            if isinstance(d, ast.Constant) and d.value is None:
                out.add(("c", None))
                continue
            if isinstance(d, ast.Name) and d.id == "bool":
                out |= {("c", True), ("c", False)}
                continue
            if isinstance(d, tuple):
                out |= {("c", x) for x in d}
                continue
            q = self.resolve_cls(mod, d)
            ms = self.enum_members(q) if q else None
            if ms is None:
                return None
            ci = self.repo.cls(q)
            for m in ms:
                v = ci.class_assigns[m]
                out.add(("c", v.value) if isinstance(v, ast.Constant) else ("e", q, m))
        if out:
            return out
        c = self.choices(t)
        return c

    def types(self, t):
        a = self.annotation(t)
        if not a:
            return None
        out = set()
        for mod, d in self.flat(a):
            if isinstance(d, tuple):
                out |= {type(x).__name__ for x in d}
            elif isinstance(d, ast.Constant) and d.value is None:
                out.add("NoneType")
            elif isinstance(d, (ast.Name, ast.Attribute)):
                n = ast.unparse(d).split(".")[-1]
                if n in ("Any", "object"):
                    return None
                out.add({"List": "list", "Dict": "dict", "Tuple": "tuple"}.get(n, n))
            elif isinstance(d, ast.Subscript):
                n = ast.unparse(d.value).split(".")[-1]
                out.add({"List": "list", "Dict": "dict", "Tuple": "tuple"}.get(n, n))
            else:
                return None
        return out or None

    def resolve_cls(self, mod, d):
        n = ast.unparse(d)
        r = self.repo.resolve(mod, n.split(".")[0])
        for part in n.split(".")[1:]:
            if r is None:
                return None
            r = self.repo.member(r, part)
        return r[1].qual if r and r[0] == "class" else None

    def flat(self, a):
        """Alternatives of an annotation: (module, ast node | tuple of literals)."""
        mod, n = a
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            try:
                n = ast.parse(n.value, mode="eval").body
            except SyntaxError:
                return [(mod, None)]
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
            return self.flat((mod, n.left)) + self.flat((mod, n.right))
        if isinstance(n, ast.Subscript):
            h = ast.unparse(n.value).split(".")[-1]
            es = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            if h == "Union":
                return [y for x in es for y in self.flat((mod, x))]
            if h == "Optional":
                return self.flat((mod, n.slice)) + [(mod, ast.Constant(None))]
            if h == "Annotated":
                return self.flat((mod, es[0]))
            if h == "Literal":
                if all(isinstance(x, ast.Constant) for x in es):
                    return [(mod, tuple(x.value for x in es))]
                return [(mod, None)]
        return [(mod, n)]

    def annotation(self, t):
        """(module, annotation) of a symbolic value, if visible."""
        if t.op == "sym" and self.root is not None:
            a = self.root.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                if x.arg == t.args[0] and x.annotation is not None:
                    return self.root.module, x.annotation
            return None
        if t.op == "attr":
            b, name = t.args
            if b.op in ("obj", "sym") and (b.op == "obj" or b.args[0] == "self") and self.root is not None \
                    and self.root.cls is not None:
                return self.field(self.root.cls, name)
            a = self.annotation(b)
            if a:
                res = [self.resolve_cls(m, d) for m, d in self.flat(a) if isinstance(d, (ast.Name, ast.Attribute))]
                res = [r for r in res if r]
                if len(res) == 1:
                    return self.field(self.repo.cls(res[0]), name)
        return None

    def field(self, ci, name):
        for c in ci.mro(self.repo):
            for st in c.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name:
                    return c.module, st.annotation
            init = c.methods.get("__init__")
            if init is None:
                continue
            for n in ast.walk(init.node):
                if isinstance(n, ast.AnnAssign) and _is_self(n.target, name):
                    return c.module, n.annotation
                if isinstance(n, ast.Assign) and any(_is_self(x, name) for x in n.targets) and \
                        isinstance(n.value, ast.Name):
                    a = init.node.args
                    for x in a.posonlyargs + a.args + a.kwonlyargs:
                        if x.arg == n.value.id and x.annotation is not None:
                            return c.module, x.annotation
        return None

    def choices(self, t):
        """Values an argparse option can take."""
        if t.op != "attr" or self.root is None:
            return None
        for n in ast.walk(self.root.module.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument":
                flags = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                if any(f.lstrip("-").replace("-", "_") == t.args[1] for f in flags):
                    for k in n.keywords:
                        if k.arg == "choices":
                            vals = self.literal(self.root.module, k.value)
                            if vals is not None:
                                return {("c", v) for v in vals} | {("c", None)}
        return None

    def literal(self, mod, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "keys" and not e.args:
            return self.literal(mod, e.func.value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "sorted", "set") \
                and len(e.args) == 1:
            return self.literal(mod, e.args[0])
        if isinstance(e, ast.Name):
            r = self.repo.resolve(mod, e.id)
            if r and r[0] == "var":
                return self.literal(mod, r[2])
            return None
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return [x.value for x in e.elts] if all(isinstance(x, ast.Constant) for x in e.elts) else None
        if isinstance(e, ast.Dict):
            return [x.value for x in e.keys] if all(isinstance(x, ast.Constant) for x in e.keys) else None
        return None


def _is_self(t, name):
    return isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == "self"


def flag(t):
    """A variable holding one of several constants depending on an earlier branch."""
    if t.op == "cmp":
        return any(flag(x) for x in t.args[1:])
    return t.op == "phi" and any(x.op == "const" for x in t.args) and all(x.op in ("const", "lv", "prev") for x in t.args)


def names(c):
    out = set()
    for x in (c.args if c.op == "tuple" else alts(c)):
        for d in (x.args if x.op == "bin" and x.args[0] == "|" else [x]):
            if hasattr(d, "op") and d.op in ("ext", "class"):
                out.add(d.args[0].split(".")[-1])
    return out



def holds(i, known, x):
    c, p = i.canon(x)
    v = known.get(c)
    return None if v is None else v == p
