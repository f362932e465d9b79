"""Hash-consed abstract value terms (value numbering) used by the abstract interpreter.

A term is an interned node ``T(op, args)``; equality is identity.  Terms describe
*where a value comes from* (provenance), never a concrete run-time value.
"""
from __future__ import annotations


class T:
    __slots__ = ("op", "args", "id", "depth")
    _tab: dict = {}

    def __repr__(self):
        return show(self, 6)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, *args):
    if op == "const":
        key = (op, type(args[0]).__name__, args[0])
        try:
            hash(key)
        except TypeError:
            args = (repr(args[0]),)
            key = (op, "repr", args[0])
    else:
        key = (op, args)
    t = T._tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.id = len(T._tab) + 1
        d = 0
        for a in _subterms(args):
            if a.depth > d:
                d = a.depth
        t.depth = d + 1
        T._tab[key] = t
    return t


def _subterms(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _subterms(a)


def children(t):
    return list(_subterms(t.args))


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")


def ext(name):
    return mk("ext", name)


def sym(name):
    return mk("sym", name)


def is_const(t, v=...):
    if t.op != "const":
        return False
    if v is ...:
        return True
    return t.args[0] == v and type(t.args[0]) is type(v)


def phi(ts):
    s = {}
    for t in ts:
        if t.op == "phi":
            for x in t.args:
                s[x.id] = x
        else:
            s[t.id] = t
    if len(s) == 1:
        return next(iter(s.values()))
    items = tuple(s[k] for k in sorted(s))
    return mk("phi", *items)


def alts(t):
    return list(t.args) if t.op == "phi" else [t]


MAXDEPTH = 60


def attr(b, name):
    if b.op == "phi":
        return phi([attr(x, name) for x in b.args])
    return mk("attr", b, name)


def sub(b, i):
    if b.op in ("tuple", "list") and is_const(i) and isinstance(i.args[0], int):
        k = i.args[0]
        if -len(b.args) <= k < len(b.args):
            return b.args[k]
    return mk("sub", b, i)


def neg(t):
    if t.op == "not":
        return t.args[0]
    if t.op == "cmp":
        inv = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">",
               "is": "is not", "is not": "is", "in": "not in", "not in": "in"}
        return cmp(inv[t.args[0]], t.args[1], t.args[2])
    if t.op == "const":
        return const(not t.args[0])
    return mk("not", t)


def cmp(op, l, r):
    # canonical orientation
    if op in (">", ">="):
        op, l, r = {">": "<", ">=": "<="}[op], r, l
    if op in ("==", "!=", "is", "is not") and r.id < l.id and l.op != "const":
        if not (r.op != "const" and l.op == "const"):
            l, r = r, l
    if op in ("==", "!=", "is", "is not") and l.op == "const" and r.op != "const":
        l, r = r, l
    return mk("cmp", op, l, r)


def call(fn, args=(), kwargs=(), uid=None):
    if isinstance(kwargs, dict):
        kwargs = tuple(sorted(kwargs.items(), key=lambda kv: str(kv[0])))
    return mk("call", fn, tuple(args), tuple(kwargs), uid)


def show(t, d=4):
    if not isinstance(t, T):
        return repr(t)
    if d <= 0:
        return "…"
    o, a = t.op, t.args
    s = lambda x: show(x, d - 1)
    if o == "const":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "ext":
        return a[0]
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "sub":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "call":
        kk = [s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]
        return f"{s(a[0])}({', '.join(kk)})"
    if o == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o in ("tuple", "list"):
        return f"{o}({', '.join(s(x) for x in a)})"
    if o == "slice":
        return f"{s(a[0])}:{s(a[1])}"
    if o == "phi":
        return "φ{" + " | ".join(s(x) for x in a) + "}"
    if o == "elem":
        return f"each({s(a[0])})"
    if o == "idx":
        return f"index#{a[0]}"
    if o == "dim":
        return f"dim({s(a[0])},{a[1]})"
    if o == "obj":
        return f"obj{a[0]}"
    return f"{o}({', '.join(s(x) if isinstance(x, T) else str(x) for x in a)})"


# ---------------------------------------------------------------- linear normal form
def poly(t, atoms=None):
    """Normal form of an integer expression: {monomial(tuple of atom ids): coeff}."""
    o = t.op
    if o == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
        return {(): t.args[0]} if t.args[0] else {}
    if o == "bin":
        op, l, r = t.args
        if op in ("+", "-"):
            a, b = poly(l, atoms), poly(r, atoms)
            out = dict(a)
            for k, v in b.items():
                out[k] = out.get(k, 0) + (v if op == "+" else -v)
            return {k: v for k, v in out.items() if v != 0}
        if op == "*":
            a, b = poly(l, atoms), poly(r, atoms)
            out = {}
            for k1, v1 in a.items():
                for k2, v2 in b.items():
                    k = tuple(sorted(k1 + k2))
                    out[k] = out.get(k, 0) + v1 * v2
            return {k: v for k, v in out.items() if v != 0}
    if o == "un" and t.args[0] == "-":
        return {k: -v for k, v in poly(t.args[1], atoms).items()}
    if o == "ind":
        # induction variable: init + step * idx(loop)
        init, step, loop = t.args
        return poly(mk("bin", "+", init, mk("bin", "*", step, mk("idx", loop))), atoms)
    if atoms is not None:
        atoms[t.id] = t
    return {(t.id,): 1}


def peq(a, b):
    return a is b or poly(a) == poly(b)


def add(a, b):
    return mk("bin", "+", a, b)


def mul(a, b):
    return mk("bin", "*", a, b)
