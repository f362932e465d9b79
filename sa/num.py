"""Evaluation of scalar index/weight terms under concrete loop positions (constant folding over the source)."""
from __future__ import annotations

from .terms import T, sym

TASK_T = sym("task")
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
       "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b}


def is_ckpts(t):
    """task.get_checkpoints() / task.checkpoints"""
    if t.op == "attr" and t.args[0] is TASK_T and t.args[1] == "checkpoints":
        return True
    return t.op == "call" and t.args[0].op == "attr" and t.args[0].args[0] is TASK_T and \
        t.args[0].args[1] == "get_checkpoints"


def num(t, env, n, extra=None):
    """Value of a scalar term: env maps loop id -> position, n = number of checkpoints; None if unknown."""
    o = t.op
    if o == "const":
        return t.args[0] if isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool) else None
    if o == "idx":
        return env.get(t.args[0])
    if o == "dim" and (is_ckpts(t.args[0]) or t.args[0] in PER_CKPT):
        return n
    if o == "ind":
        a, b = num(t.args[0], env, n, extra), num(t.args[1], env, n, extra)
        l = t.args[2]
        if a is None or b is None or l not in env:
            return None
        return a + b * env[l]
    if o == "bin":
        a, b = num(t.args[1], env, n, extra), num(t.args[2], env, n, extra)
        if a is None or b is None or t.args[0] not in OPS:
            return None
        try:
            return OPS[t.args[0]](a, b)
        except (ZeroDivisionError, OverflowError):
            return None
    if o == "un" and t.args[0] == "-":
        a = num(t.args[1], env, n, extra)
        return None if a is None else -a
    if o == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.float", "builtins.int", "builtins.max") and len(t.args[1]) == 1:
        return num(t.args[1][0], env, n, extra)
    if o in ("min", "max") or o == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.min", "builtins.max"):
        vs = [num(x, env, n, extra) for x in (t.args[1] if o == "call" else t.args) if isinstance(x, T)]
        if not vs or any(x is None for x in vs):
            return None
        return max(vs) if (o == "max" or o == "call" and t.args[0].args[0].endswith("max")) else min(vs)
    if extra:
        return extra(t)
    return None


def ckpt_loop_positions(i, lid, n):
    """Index values taken by ``idx(lid)``-based loops over the checkpoints: list of positions, or None if the loop
    does not run over the checkpoints."""
    it = i.loopinfo[lid].get("iter")
    if it is None:
        return None
    return positions(i, it, n)


PER_CKPT = {sym("init:weight_list")}     # caller lists with one entry per checkpoint (lengths are compared first)


def positions(i, it, n):
    it = i.iter_source(it)
    if is_ckpts(it) or it in PER_CKPT:
        return list(range(n))
    if it.op == "call" and it.args[0].op == "ext":
        nm, a = it.args[0].args[0], it.args[1]
        if nm == "builtins.range":
            v = [num(x, {}, n) for x in a]
            if any(x is None for x in v):
                return None
            try:
                return list(range(len(range(*map(int, v)))))
            except ValueError:
                return None
        if nm == "builtins.enumerate" and a:
            return positions(i, a[0], n)
        if nm == "builtins.zip":
            ps = [positions(i, x, n) for x in a]
            ps = [p for p in ps if p is not None]
            return min(ps, key=len) if ps else None
        if nm in ("builtins.list", "builtins.tuple") and a:
            return positions(i, a[0], n)
        if nm == "builtins.reversed" and a:
            return None
    if it.op == "sub" and is_ckpts(it.args[0]) and it.args[1].op == "slice":
        sl = [None if x.op == "const" and x.args[0] is None else num(x, {}, n) for x in it.args[1].args]
        try:
            return list(range(len(list(range(n))[slice(*[None if x is None else int(x) for x in sl])])))
        except (TypeError, ValueError):
            return None
    return None


def mentions_ckpts(i, it):
    return any(is_ckpts(x) or x in PER_CKPT for x in i.expand(it))


def affine(t, v, env, n):
    """t as a*v + sum(w_k * atom_k): (a, [(w, atom)]) or None."""
    if t is v:
        return 1.0, []
    o = t.op
    if o == "bin":
        op, l, r = t.args
        if op in ("+", "-"):
            a, b = affine(l, v, env, n), affine(r, v, env, n)
            if a is None or b is None:
                return None
            s = 1.0 if op == "+" else -1.0
            return a[0] + s * b[0], a[1] + [(s * w, x) for w, x in b[1]]
        if op == "*":
            for x, y in ((l, r), (r, l)):
                k = num(x, env, n)
                if k is not None:
                    a = affine(y, v, env, n)
                    if a is None:
                        return None
                    return k * a[0], [(k * w, z) for w, z in a[1]]
        if op == "/":
            k = num(r, env, n)
            if k:
                a = affine(l, v, env, n)
                if a is None:
                    return None
                return a[0] / k, [(w / k, z) for w, z in a[1]]
    k = num(t, env, n)
    if k == 0:
        return 0.0, []
    if _has(t, v):
        return None
    return 0.0, [(1.0, t)]


def _has(t, v, memo=None):
    from .interp import contains
    return contains(t, v)
