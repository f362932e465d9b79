"""Function evaluations of an analysed scenario: which task function is applied to which parameters and data."""
from __future__ import annotations

from .terms import NONE, T, children, sym

GETTERS = {"get_grad_loss_func": "loss", "get_loss_func": "loss", "get_grad_target_func": "target",
           "get_target_func": "target", "original_loss_func": "loss", "original_target_func": "target",
           "loss_func": "loss", "target_func": "target", "grad_loss_func": "loss", "grad_target_func": "target"}
TASK_T = sym("task")


def task_call(t, names=None):
    """(method, bound) if t is a call of a task method."""
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[0] is TASK_T:
        n = t.args[0].args[1]
        if names is None or n in names:
            return n, dict(t.args[2])
    return None


def func_of(t):
    """(kind, term, bound) if t denotes a loss/target function of the task."""
    c = task_call(t, GETTERS)
    if c and (c[0].startswith("get_")):
        return GETTERS[c[0]], t, c[1]
    if t.op == "attr" and t.args[0] is TASK_T and t.args[1] in GETTERS:
        return GETTERS[t.args[1]], t, {}
    return None


def funcs_in(i, t):
    """All task functions a callable term may denote (through partial, vmap, phi, closures)."""
    out = {}
    for x in i.expand(t):
        f = func_of(x)
        if f:
            out[f[1]] = f
    return list(out.values())


def loaders_in(i, t, loaders):
    """Loader symbols whose elements reach t (not through stored results)."""
    out = set()
    for x in i.expand(t):
        if x.op == "elem" and x.args[0] in loaders:
            out.add(x.args[0])
    return out


class Eval:
    """callee applied to args: a direct application of a task function."""

    def __init__(self, e, kind, fterm, bound, args, kwargs, how):
        self.e, self.kind, self.fterm, self.bound, self.args, self.kwargs, self.how = e, kind, fterm, bound, args, kwargs, how


def callee_funcs(i, t, depth=0, seen=None):
    """Task functions that a *callable* term applies when called: looks through vmap/grad/partial/phi only."""
    seen = set() if seen is None else seen
    if t in seen or depth > 30:
        return []
    seen.add(t)
    f = func_of(t)
    if f:
        return [(f, ())]
    out = []
    if t.op == "phi":
        for a in t.args:
            out += callee_funcs(i, a, depth + 1, seen)
    elif t.op == "lv" and t in i.lvinfo:
        for a in i.lvinfo[t]:
            if isinstance(a, T):
                out += callee_funcs(i, a, depth + 1, seen)
    elif t.op == "or":
        for a in t.args:
            out += callee_funcs(i, a, depth + 1, seen)
    elif t.op == "partial":
        extra = tuple(t.args[1]) + tuple(v for _, v in t.args[2])
        for f, ex in callee_funcs(i, t.args[0], depth + 1, seen):
            out.append((f, ex + extra))
    elif t.op == "call":
        # vmap(f, ...), grad(f), opaque higher-order function with func=...
        fn = t.args[0]
        cands = list(t.args[1][:1]) + [v for k, v in t.args[2] if k == "func"]
        if fn.op == "ext" and not (task_call(t)):
            for a in cands:
                for f, ex in callee_funcs(i, a, depth + 1, seen):
                    out.append((f, ex))
    return out


def evaluations(r, evs=None):
    """Every call event of the run that applies (or is handed) a loss/target function of the task."""
    out = []
    i = r.i
    for e in (r.events() if evs is None else evs):
        if e.kind != "call":
            continue
        # direct application (callee is the function, maybe wrapped)
        ft = e.d.get("func")
        if ft is not None and not (task_call(e.result) and task_call(e.result)[0].startswith("get_")):
            for (k, ftm, b), extra in callee_funcs(i, ft):
                out.append(Eval(e, k, ftm, b, extra + tuple(e.args), e.kwargs, "apply"))
        # handed to an opaque routine
        bound = e.d.get("bound") or {}
        if isinstance(e.callee, str) and e.callee.startswith("dattri.") and e.result is not None and \
                e.result.op == "call" and e.result.args[0].op == "ext":
            for nm, v in bound.items():
                if not isinstance(v, T):
                    continue
                for (k, ftm, b), extra in callee_funcs(i, v):
                    rest = tuple(x for n2, x in bound.items() if n2 != nm and isinstance(x, T))
                    out.append(Eval(e, k, ftm, b, extra + rest, (), "handed:" + e.callee.rsplit(".", 1)[1]))
    return out


def parts(ev):
    """Terms of the arguments of an evaluation."""
    out = []
    for a in list(ev.args) + [v for _, v in (ev.kwargs or ())]:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            out += [x for x in a if isinstance(x, T)]
    return out


def params_in(i, terms):
    """task.get_param calls reaching the given terms."""
    out = {}
    for t in terms:
        for x in i.expand(t):
            c = task_call(x, ("get_param",))
            if c:
                out[x] = c[1]
    return out


def memo_check(c, rule, param, what):
    """Returning a remembered gradient function requires comparing the request's ``param`` with the remembered one."""
    from .drive import TASK, attributor
    for m in ("get_grad_loss_func", "get_grad_target_func"):
        r = attributor(c.repo, TASK, init=dict(loss_func=sym("user_loss"), target_func=sym("user_target"),
                                               checkpoints_load_func=NONE),
                       nonnull=lambda t: True if t.op == "sym" and t.args[0].startswith(("user_", "a_", "b_")) else None)
        c.functions |= r.i.inlined
        for k in "ab":
            res = r.call(m, key=k, in_dims=sym(k + "_in_dims"), layer_name=sym(k + "_layer"), ckpt_idx=sym(k + "_ckpt"))
        cons = f"AttributionTask.{m}:memo:{param}"
        f = r.cls.find(c.repo, m)
        if res is None:
            c.unknown(rule, cons, "no normal return")
            continue
        from .terms import alts
        new = {sym("b_in_dims"), sym("b_layer"), sym("b_ckpt")}
        stale = [x for x in alts(res) if not (new & set(r.i.expand(x)))]
        if not stale:
            c.ok(rule, cons, "no remembered function is returned for another request")
            continue
        key = {"layer_name": "b_layer", "ckpt_idx": "b_ckpt", "in_dims": "b_in_dims"}[param]
        hit, lossy = False, None
        for e in r.events("b", "branch"):
            if sym(key) in set(r.i.expand(e.cond)) and e.fn.rsplit(".", 1)[1] not in ("_load_checkpoints",):
                if e.cond.op in ("cmp", "not", "or", "and", "phi"):
                    # a None test does not compare two requests
                    if any(x.op == "cmp" and not (x.args[1] is NONE or x.args[2] is NONE) and
                           sym(key) in set(r.i.expand(x)) for x in r.i.expand(e.cond)):
                        how = kept_whole(r.i, e.cond, sym(key))
                        if how is True:
                            hit = True
                        elif how is None:
                            lossy = lossy or "?"
                        else:
                            lossy = how if lossy is None else lossy
        if lossy and lossy != "?" and not hit:
            c.bad(rule, cons, f"a gradient function remembered for another {what} is returned: only {lossy} of the "
                  f"requested {param} is compared", f.loc())
        elif lossy and not hit:
            c.unknown(rule, cons, "what is compared is not understood")
        elif hit:
            c.ok(rule, cons, "compared with the remembered request")
        else:
            c.bad(rule, cons, f"a gradient function remembered for another {what} is returned: the {param} of the "
                  f"request is not compared", f.loc())


KEEPS = ("tuple", "list", "str", "repr", "sorted", "set", "frozenset", "copy.copy", "copy.deepcopy", "dict", "hash", "json.dumps", "pickle.dumps")


def kept_whole(i, cond, s):
    """Does a comparison see the whole value s (True), or only something it loses information in (which)?"""
    seen, todo, lost = set(), [cond], None
    while todo:
        x = todo.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x is s:
            return True
        if x.op in ("obj", "lv", "tuple", "list", "cmp", "not", "or", "and", "elem", "fstr", "mix"):
            if x.op == "obj":
                todo += [v for _, v in i.contents.get(x.args[0], ()) if isinstance(v, T)]
                todo += [v for v in i.S.heap.get(x.args[0], {}).values() if isinstance(v, T)]
            elif x.op == "lv":
                todo += [v for v in i.lvinfo.get(x, ()) if isinstance(v, T)]
            else:
                todo += [y for y in _flat(x.args)]
            continue
        if x.op == "phi":
            todo += [y for y in _flat(x.args)]
            continue
        if s not in set(i.expand(x)):
            continue
        if x.op == "call" and x.args[0].op == "ext":
            n = x.args[0].args[0].replace("builtins.", "")
            if n in KEEPS:
                todo += list(x.args[1])
                continue
            if n in ("len", "bool", "type", "isinstance", "any", "all"):
                lost = f"{n}(...)"
                continue
        if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("copy", "join", "__len__"):
            if x.args[0].args[1] == "__len__":
                lost = "the length"
                continue
            todo += [x.args[0].args[0]] + list(x.args[1])
            continue
        if x.op == "dim":
            lost = "the length"
            continue
        if x.op == "sub" and (x.args[1].op == "const" or x.args[1].op == "slice"):
            lost = "a part"
            continue
        return None if lost is None else lost
    return lost


def _flat(xs):
    for x in xs:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _flat(x)


def deep(r, t):
    """Terms a value is built from, including what was stored into freshly allocated tensors it contains."""
    from .interp import is_alloc
    if not hasattr(r, "_deep") or r._deep[0] != len(r.i.events):
        m = {}
        for e in r.i.events:
            if e.kind in ("substore", "inplace") and e.value is not None:
                b = e.base
                while b.op in ("T", "sub") or b.op == "lv":
                    if b.op == "lv":
                        break
                    b = b.args[0]
                cands = [b] + ([x for x in r.i.lvinfo[b] if isinstance(x, T)] if b.op == "lv" and b in r.i.lvinfo else [])
                for x in cands:
                    if is_alloc(x):
                        m.setdefault(x, set()).add(e.value)
        r._deep = (len(r.i.events), m)
    m = r._deep[1]
    out, todo = set(), [t]
    while todo:
        y = todo.pop()
        for x in r.i.expand(y):
            if x in out:
                continue
            out.add(x)
            for v in m.get(x, ()):
                if v not in out:
                    todo.append(v)
    return out
