"""Constant folding of condition terms under assumed facts about the request (lengths, flags, option values)."""
from __future__ import annotations

import math

from .terms import T

UNK = object()
BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
       "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b}
CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "in": lambda a, b: a in b, "not in": lambda a, b: a not in b,
       "is": lambda a, b: a is b or a == b, "is not": lambda a, b: not (a is b or a == b)}
CALLS = {"builtins.int": int, "builtins.float": float, "builtins.abs": abs, "builtins.round": round, "math.sqrt": math.sqrt,
         "math.isqrt": math.isqrt, "math.floor": math.floor, "math.ceil": math.ceil, "builtins.max": max,
         "builtins.min": min, "builtins.bool": bool, "builtins.str": str, "builtins.len": len, "math.pow": math.pow,
         "builtins.divmod": divmod, "builtins.isinstance": None}


def fold(i, t, facts, depth=0):
    """Python value of a term, or UNK. ``facts``: callable term -> value or UNK."""
    if depth > 40:
        return UNK
    v = facts(t)
    if v is not UNK:
        return v
    o = t.op

    def f(x):
        return fold(i, x, facts, depth + 1)
    if o == "const":
        return t.args[0]
    if o == "phi":
        vs = [f(x) for x in t.args]
        if any(x is UNK for x in vs):
            return UNK
        return vs[0] if all(type(x) is type(vs[0]) and x == vs[0] for x in vs) else UNK
    try:
        if o == "cmp":
            a, b = f(t.args[1]), f(t.args[2])
            if a is UNK or b is UNK:
                return UNK
            return CMP[t.args[0]](a, b)
        if o == "bin":
            a, b = f(t.args[1]), f(t.args[2])
            if a is UNK or b is UNK or t.args[0] not in BIN:
                return UNK
            return BIN[t.args[0]](a, b)
        if o == "un":
            a = f(t.args[1])
            return UNK if a is UNK else (-a if t.args[0] == "-" else UNK)
        if o == "not":
            a = f(t.args[0])
            return UNK if a is UNK else not a
        if o in ("and", "or"):
            out = None
            for x in t.args:
                a = f(x)
                if a is UNK:
                    # a decided operand may still decide the whole
                    out = UNK
                    continue
                if (o == "and" and not a) or (o == "or" and a):
                    return a if out is not UNK else bool(a)
                if out is not UNK:
                    out = a
            return out
        if o == "tuple":
            vs = tuple(f(x) for x in t.args)
            return UNK if any(x is UNK for x in vs) else vs
        if o == "obj":
            ob = i.objs.get(t.args[0])
            if ob and ob["kind"] in ("list", "set", "tuple") :
                items = i.S.heap.get(t.args[0], {}).get("items")
                if items is not None and "*" not in i.S.heap.get(t.args[0], {}):
                    vs = [f(x) for x in items]
                    return UNK if any(x is UNK for x in vs) else tuple(vs)
            if ob and ob["kind"] == "dict":
                h = i.S.heap.get(t.args[0], {})
                if not any(k in h for k in ("v*", "k*", "*", "spread")):
                    ks = [k[1] for k in h if isinstance(k, tuple) and k[0] == "k"]
                    return {k: f(h[("k", k)]) for k in ks}
            return UNK
        if o == "dim" and t.args[1] == 0:
            if t.args[0].op == "tuple" and not any(x.op == "star" for x in t.args[0].args):
                return len(t.args[0].args)
            a = f(t.args[0])
            return UNK if a is UNK or not hasattr(a, "__len__") else len(a)
        if o == "call" and t.args[0].op == "ext" and CALLS.get(t.args[0].args[0]):
            vs = [f(x) for x in t.args[1] if isinstance(x, T)]
            return UNK if any(x is UNK for x in vs) or t.args[2] else CALLS[t.args[0].args[0]](*vs)
        if o == "call" and t.args[0].op == "attr" and not t.args[2]:
            b = f(t.args[0].args[0])
            vs = [f(x) for x in t.args[1]]
            if isinstance(b, (str, float, int)) and not any(x is UNK for x in vs) and \
                    t.args[0].args[1] in ("startswith", "endswith", "lower", "upper", "split", "is_integer", "strip"):
                return getattr(b, t.args[0].args[1])(*vs)
        if o == "sub":
            a, b = f(t.args[0]), f(t.args[1])
            return UNK if a is UNK or b is UNK else a[b]    # dict of folded values may hold UNK
    except Exception:   # noqa: BLE001
        return UNK
    return UNK


def facts_of(d, pred=()):
    """facts callable from a dict term -> value and (predicate, value) pairs."""
    def g(t):
        if t in d:
            return d[t]
        for p, v in pred:
            if p(t):
                return v
        return UNK
    return g


class Truth:
    """cfg.truth hook; ``.i`` is set once the interpreter exists."""

    def __init__(self, facts):
        self.facts, self.i = facts, None

    def __call__(self, t):
        if t.op in ("cmp", "not", "and", "or", "call", "attr", "sym", "dim", "bin", "phi", "isinstance"):
            v = fold(self.i, t, self.facts) if self.i is not None else UNK
            if v is not UNK:
                return bool(v)
        return None
