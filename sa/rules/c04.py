"""C04: a layer restriction applies to parameters and functions alike."""
from __future__ import annotations

from .. import evals as E
from ..drive import LAYER, TASK, attributor, functions
from ..interp import Dead
from ..scen import table
from ..terms import NONE, alts, const, show, sym

R_PAIR = "function-parameter-pair"
R_SPLIT = "layer-split"
R_TASK = "task-restriction"
R_STR = "single-layer-name"
R_MEMO = "remembered-function"


def run(c):
    c.rule(R_PAIR, "every evaluation of a loss/target function passes parameters restricted to exactly the layers the "
                   "function was restricted to: the attributor's layers when restricted, none otherwise")
    c.rule(R_SPLIT, "splits of a representation by layer use the parameters of the restricted layers")
    c.rule(R_TASK, "AttributionTask restricts parameters and functions to the requested layers, and only to those")
    c.rule(R_STR, "where a layer may be given as a single string it is used as one layer name")
    c.rule(R_MEMO, "a remembered gradient function is only returned for a request with the same layers")
    for s in table():
        if s.name.startswith(("KNN", "RPS", "DVEmb")):
            continue
        c.scenarios.append(s.name)
        ek = "EKFAC" in s.name
        for want in ((LAYER, NONE) if not ek else (None,)):
            with c.guard(s.name):
                r = s.build(c.repo, extra_init=None if ek else dict(layer_name=want))
                c.functions |= r.i.inlined
                check(c, s, r, want)
    task(c)
    with c.guard("single layer name"):
        single(c)
    E.memo_check(c, R_MEMO, "layer_name", "layer restriction")
    c.need(R_PAIR, 25)
    c.need(R_TASK, 6)


def lay(b):
    return b.get("layer_name", NONE)


def check(c, s, r, want):
    i = r.i
    restricted = f"{s.name}[{'all' if want is NONE else 'layers'}]"
    for ev in E.evaluations(r):
        if ev.how.startswith("handed:") and not any(
                n == "func" and E.callee_funcs(i, v) for n, v in (ev.e.d.get("bound") or {}).items()):
            continue
        cons = f"{restricted}:{ev.e.fn.rsplit('.', 1)[1]}:{ev.kind}:{ev.how}"
        terms = E.parts(ev)
        ps = E.params_in(i, terms)
        fl = set(alts(lay(ev.bound)))
        if not ps:
            continue
        for p, pb in ps.items():
            pl = set(alts(lay(pb)))
            if want is None:
                ok = same(i, r, pl, fl)
                why = f"parameters of {names(pl)} passed to a function of {names(fl)}"
            else:
                ok = pl == fl == {want}
                if not ok and raw_attr(ev.fterm):
                    ok = pl == {want} == {NONE}
                why = f"parameters of {names(pl)} passed to a function of {names(fl)}, the attributor is restricted to " \
                      f"{show(want)}"
            if ok:
                c.ok(R_PAIR, cons, names(pl))
            elif undecided(pl | fl):
                c.unknown(R_PAIR, cons, why)
            else:
                c.bad(R_PAIR, cons, why, ev.e.loc)
    # splits of representations by layer
    for e in r.events(kind="call"):
        t = E.task_call(e.result, ("get_param",)) if e.result is not None else None
        if not t:
            continue
        b = t[1]
        sp = b.get("layer_split")
        if sp is not None and sp.op == "const" and sp.args[0]:
            cons = f"{restricted}:{e.fn.rsplit('.', 1)[1]}:get_param(layer_split)"
            if want is None or set(alts(lay(b))) == {want}:
                c.ok(R_SPLIT, cons)
            else:
                c.bad(R_SPLIT, cons, f"splits by the layers {show(lay(b))}, the representation has {show(want)}", e.loc)


def raw_attr(ft):
    """task.loss_func / original_* used directly: never restricted."""
    return ft.op == "attr"


def same(i, r, pl, fl):
    return pl == fl


def undecided(ls):
    return any(x.op in ("mix", "unknown", "lv") for x in ls)


def names(ls):
    return "{" + ", ".join(sorted("all parameters" if x is NONE else show(x, 3) for x in ls)) + "}"


# ------------------------------------------------------------------ a single layer name
def single(c):
    """A str layer name is one layer, not a sequence of characters."""
    UL = sym("user_layer")
    cfg = dict(nonnull=lambda t: True if t is UL else None, kinds=lambda t: "str" if t is UL else None)
    r = attributor(c.repo, TASK, init=dict(loss_func=sym("user_loss"), checkpoints_load_func=NONE), **cfg)
    for split in (False, True):
        r.call("get_param", key=f"s{split}", layer_name=UL, ckpt_idx=sym("user_ckpt"), layer_split=const(split),
               param_layer_map=NONE)
    r2 = functions(c.repo, **cfg)
    dec = r2.fcall("dattri.func.utils.partial_param", full_param=sym("full_param"), layer_name=UL, param_num=const(0))
    c.functions |= r.i.inlined | r2.i.inlined
    if dec is not None:
        w = r2.i.call_term(dec, (sym("function"),), (), stub())
        try:
            r2.i.call_term(w, (sym("params"), sym("data")), (), stub())
        except Dead:
            pass
    for run, name in ((r, "AttributionTask.get_param"), (r2, "partial_param")):
        hit = [e for e in run.i.events if e.kind == "iter" and e.iterable is UL]
        if hit:
            c.bad(R_STR, name, "a single layer name is iterated character by character", hit[0].loc)
        else:
            c.ok(R_STR, name, "treated as one layer")


def stub():
    import ast
    n = ast.Call(func=ast.Name(id="f", ctx=ast.Load()), args=[], keywords=[])
    n.lineno = n.col_offset = n.end_lineno = n.end_col_offset = 0
    return n


# ------------------------------------------------------------------ AttributionTask itself
PARTIAL = "dattri.func.utils.partial_param"
FLATTEN = "dattri.func.utils.flatten_params"


def task(c):
    UL = sym("user_layer")
    for layer in (UL, NONE):
        def kind(t, layer=layer):
            return "list" if t is UL else None

        def nonnull(t):
            return True if t is UL or t in (sym("user_loss"), sym("user_target")) else None
        r = attributor(c.repo, TASK, init=dict(loss_func=sym("user_loss"), target_func=sym("user_target"),
                                               checkpoints_load_func=NONE), nonnull=nonnull, kinds=kind)
        c.functions |= r.i.inlined
        tag = "layers" if layer is UL else "all"
        for m in ("get_loss_func", "get_grad_loss_func", "get_target_func", "get_grad_target_func"):
            res = r.call(m, layer_name=layer, ckpt_idx=sym("user_ckpt"),
                         **({"flatten": const(True)} if not m.startswith("get_grad") else {}))
            f = r.cls.find(c.repo, m)
            cons = f"AttributionTask.{m}[{tag}]"
            if res is None:
                c.unknown(R_TASK, cons, "no normal return")
                continue
            used = [e for e in r.events(m, "call") if e.callee == PARTIAL and e.result is not None]
            reach = set(r.i.expand(res))
            hit = [e for e in used if e.result in reach]
            if layer is NONE:
                (c.bad(R_TASK, cons, "the unrestricted function is restricted to some parameters", f.loc()) if hit
                 else c.ok(R_TASK, cons))
                continue
            if not hit:
                c.bad(R_TASK, cons, "the requested layers do not restrict the returned function", f.loc())
                continue
            for e in hit:
                ln = e.bound.get("layer_name")
                fp = e.bound.get("full_param")
                # layer argument and full parameters (of the model just loaded)
                if ln is not UL:
                    c.bad(R_TASK, cons, f"restricted to {show(ln) if ln is not None else 'nothing'}, "
                          f"requested user_layer", e.loc)
                elif fp is not None and UL in set(r.i.expand(fp)):
                    c.bad(R_TASK, cons, "the restricted function's full parameters are themselves restricted", e.loc)
                else:
                    c.ok(R_TASK, cons, "partial_param(layer_name=user_layer)")
        # parameters
        for split in (False, True):
            key = f"p{split}"
            res = r.call("get_param", key=key, layer_name=layer, ckpt_idx=sym("user_ckpt"), layer_split=const(split),
                         param_layer_map=NONE)
            f = r.cls.find(c.repo, "get_param")
            cons = f"AttributionTask.get_param[{tag}{',split' if split else ''}]"
            if res is None:
                c.unknown(R_TASK, cons, "no normal return")
                continue
            reach = set(r.i.expand(res))
            if (UL in reach) == (layer is UL):
                c.ok(R_TASK, cons, "restricted" if layer is UL else "all")
            else:
                c.bad(R_TASK, cons, "the returned parameters do not depend on the requested layers" if layer is UL else
                      "unrestricted parameters depend on a layer choice", f.loc())
