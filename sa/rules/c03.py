"""C03: every checkpoint contributes with its own parameters."""
from __future__ import annotations

from .. import evals as E
from ..drive import FULL, LAYER, TASK, TEST, TRAIN, attributor
from ..interp import is_alloc
from ..num import PER_CKPT, affine, ckpt_loop_positions, is_ckpts, mentions_ckpts, num
from ..scen import table
from ..terms import NONE, T, alts, const, mk, show, sym
from .c01 import base_alloc

R_EVAL = "own-parameters"
R_ALL = "all-checkpoints"
R_STAT = "own-statistics"
R_COMB = "combination"
R_LOAD = "task-loading"
N = 4


def run(c):
    c.rule(R_EVAL, "in an evaluation inside a loop over the checkpoints, the parameters and (with a layer restriction) "
                   "the function are those of the checkpoint the loop is at")
    c.rule(R_ALL, "every loop over checkpoints takes every checkpoint index exactly once")
    c.rule(R_STAT, "a cached per-checkpoint statistic is read at the index of the checkpoint being processed")
    c.rule(R_COMB, "with n checkpoints, checkpoint j enters the result with weight 1/n (TracIn: weight_list[j])")
    c.rule(R_LOAD, "AttributionTask loads exactly the requested checkpoint whenever another one (or none) is current, "
                   "and returns parameters of the model after that load")
    for s in table():
        if s.name.startswith(("KNN", "DVEmb", "RPS")):
            continue
        c.scenarios.append(s.name)
        for layer in (NONE, LAYER):
            if layer is LAYER and "EKFAC" in s.name:
                continue
            with c.guard(s.name):
                r = s.build(c.repo, extra_init=dict(layer_name=layer))
                c.functions |= r.i.inlined
                nm = s.name + ("" if layer is NONE else "+layers")
                check_evals(c, s, nm, r, layer)
                check_stats(c, nm, r)
                check_lists(c, nm, r)
                if layer is NONE:
                    check_comb(c, s, nm, r)
    loading(c)
    c.rule("remembered-function", "a remembered gradient function is only returned for a request with the same checkpoint")
    E.memo_check(c, "remembered-function", "ckpt_idx", "checkpoint")
    c.need(R_EVAL, 40)
    c.need(R_ALL, 20)
    c.need(R_COMB, 15)
    c.need(R_LOAD, 4)


def ckpt_loops(r, loops):
    """Enclosing loops that run over checkpoints."""
    out = []
    for l in loops:
        li = r.i.loopinfo.get(l)
        if li is None or li.get("iter") is None:
            continue
        if mentions_ckpts(r.i, li["iter"]) and ckpt_loop_positions(r.i, l, N) is not None:
            out.append(l)
    return out


def vals(t, loop, pos):
    """Values of an index term at every loop position (phi: any alternative)."""
    out = []
    for a in alts(t):
        out.append([num(a, {loop: p}, N) for p in pos])
    return out


def check_evals(c, s, nm, r, layer):
    i = r.i
    seen_loops = set()
    for ev in E.evaluations(r):
        loops = ckpt_loops(r, ev.e.loops)
        args = E.parts(ev)
        cons = f"{nm}:{ev.e.fn.rsplit('.', 1)[1]}:{ev.kind}"
        idxs = [("parameters", b["ckpt_idx"]) for b in E.params_in(i, args).values()]
        if layer is not NONE:
            idxs.append(("function", ev.bound.get("ckpt_idx", NONE)))
        if ev.how.startswith("handed:random_project"):
            continue
        if not loops:
            if not idxs:
                continue
            if all(k == "parameters" and t is const(0) for k, t in idxs) and single_only(r):
                c.ok(R_EVAL, cons, "single checkpoint")
            elif all(t.op in ("const",) or t is NONE for _, t in idxs) and s.calls and outside_is_definition(ev):
                c.ok(R_EVAL, cons, "outside the loop")
            else:
                c.bad(R_EVAL, cons + ":outside", "a task function is evaluated outside any loop over the checkpoints "
                      f"with parameters of checkpoint {', '.join(show(t) for _, t in idxs)}", ev.e.loc)
            continue
        loop = loops[-1]
        seen_loops |= set(loops)
        pos = ckpt_loop_positions(i, loop, N)
        for what, t in idxs:
            vv = vals(t, loop, pos)
            if any(any(x is None for x in v) for v in vv):
                if what == "function" and t is NONE:
                    c.bad(R_EVAL, cons + ":function", "the layer-restricted function is created without the "
                          "checkpoint index", ev.e.loc)
                elif t.op in ("const",) or t.op == "idx" or foreign(t, loop):
                    c.bad(R_EVAL, cons + ":" + what, f"{what} of checkpoint {show(t)} used while processing "
                          f"checkpoint index#{loop}", ev.e.loc)
                else:
                    c.unknown(R_EVAL, cons + ":" + what, f"checkpoint index {show(t)} not evaluated")
                continue
            for v in vv:
                if v == list(range(N)):
                    c.ok(R_EVAL, cons + ":" + what)
                elif sorted(set(v)) == list(range(N)) and consistent(idxs, loop, pos):
                    c.ok(R_EVAL, cons + ":" + what, "permuted order")
                else:
                    c.bad(R_EVAL, cons + ":" + what, f"while processing checkpoints 0..{N - 1} the {what} are those of "
                          f"checkpoints {v}", ev.e.loc)
    # user-supplied probability functions are given unflattened parameters
    for e in r.events(None, "call"):
        ft = e.d.get("func")
        if ft is None or not any(x.op == "sym" and x.args[0] == "init:correct_probability_func" for x in i.expand(ft) if True):
            continue
        if ft.op == "attr" or e.callee == "." or not e.args:
            pass
        loops = ckpt_loops(r, e.loops)
        ps = E.params_in(i, [a for a in e.args if isinstance(a, T)])
        cons = f"{nm}:{e.fn.rsplit('.', 1)[1]}:probability"
        if not ps or not loops:
            continue
        pos = ckpt_loop_positions(i, loops[-1], N)
        for b in ps.values():
            for v in vals(b["ckpt_idx"], loops[-1], pos):
                if v == list(range(N)):
                    c.ok(R_EVAL, cons)
                elif None in v and not foreign(b["ckpt_idx"], loops[-1]):
                    c.unknown(R_EVAL, cons, show(b["ckpt_idx"]))
                else:
                    c.bad(R_EVAL, cons, f"probabilities use parameters of checkpoint {show(b['ckpt_idx'])}", e.loc)
    for lid, li in i.loopinfo.items():
        it = li.get("iter")
        if it is None or not mentions_ckpts(i, it):
            continue
        cons = f"{nm}:{li['frame'].info.qual.rsplit('.', 1)[1] if li['frame'].info else '?'}"
        src = i.iter_source(it)
        pos = ckpt_loop_positions(i, lid, N)
        if pos is None:
            c.unknown(R_ALL, cons, f"loop over {show(it, 3)[:80]}")
        elif len(pos) == N:
            c.ok(R_ALL, cons, show(it, 3)[:60])
        else:
            c.bad(R_ALL, cons, f"a loop over the checkpoints takes {len(pos)} of {N} checkpoints: {show(it, 4)[:90]}",
                  f"{li['module'].rel}:{li['node'].lineno}")


def consistent(idxs, loop, pos):
    vs = [tuple(map(tuple, vals(t, loop, pos))) for _, t in idxs]
    return len(set(vs)) == 1


def foreign(t, loop):
    """Index of another loop, or of an earlier iteration."""
    for a in alts(t):
        if a.op == "idx" and a.args[0] != loop or a.op in ("prev",) or a.op == "const":
            return True
    return False


def single_only(r):
    """The constructor refuses several checkpoints."""
    for e in r.events("__init__", "raise"):
        for t, v in e.pc:
            if any(x.op == "dim" and is_ckpts(x.args[0]) for x in r.i.expand(t)):
                return True
    return False


def outside_is_definition(ev):
    return ev.how == "handed"


def check_stats(c, nm, r):
    i = r.i
    # containers filled inside a checkpoint loop of an earlier phase
    owner = {}
    for lid in i.loopinfo:
        pass
    start, end = r.ranges["main"]
    main = range(start, end)
    for n, e in enumerate(r.i.events):
        if n < start or n >= end or e.kind != "subload" or e.base is None:
            continue
        for b in alts(e.base):
            if b.op != "obj" or b.args[0] not in i.contents:
                continue
            dep = set()
            for how, v in i.contents[b.args[0]]:
                for x in i.expand(v):
                    if x.op == "idx":
                        dep.add(x.args[0])
            dep = {l for l in dep if l in i.loopinfo and i.loopinfo[l].get("iter") is not None
                   and mentions_ckpts(i, i.loopinfo[l]["iter"])}
            cur = ckpt_loops(r, e.loops)
            if not dep or not cur or dep & set(cur):
                continue
            # the container itself must be filled once per checkpoint, not hold per-batch values of one checkpoint
            pos = ckpt_loop_positions(i, cur[-1], N)
            cons = f"{nm}:{e.fn.rsplit('.', 1)[1]}"
            if e.index.op == "slice":
                continue
            for v in vals(e.index, cur[-1], pos):
                if v == list(range(N)):
                    c.ok(R_STAT, cons, show(b))
                elif None in v and not foreign(e.index, cur[-1]):
                    c.unknown(R_STAT, cons, f"index {show(e.index)[:60]}")
                else:
                    c.bad(R_STAT, cons, f"a statistic cached per checkpoint is read at {show(e.index)[:60]} while "
                          f"processing checkpoint index#{cur[-1]}", e.loc)


def check_lists(c, nm, r):
    """A list joined while one checkpoint is processed holds values of that checkpoint only."""
    i = r.i
    grown, cleared = {}, {}
    for e in r.events(None, "call"):
        if e.recv is not None and e.recv.op == "obj" and i.objs[e.recv.args[0]]["kind"] == "list":
            if e.callee in (".append", ".extend", ".insert"):
                grown.setdefault(e.recv, []).append(e)
            elif e.callee in (".clear", ".pop", ".remove"):
                cleared.setdefault(e.recv, []).append(e)
    for e in r.events(None, "delitem"):
        cleared.setdefault(e.base, []).append(e)
    for e in r.events(None, "call"):
        loops = ckpt_loops(r, e.loops)
        if not loops or e.callee in (".append", ".extend", ".insert"):
            continue
        loop = loops[-1]
        if not (isinstance(e.callee, str) and e.callee.rsplit(".", 1)[-1] in ("cat", "stack", "vstack", "hstack", "concat", "sum")):
            continue
        for b in [x for a in list(e.args) + [v for _, v in e.kwargs] if isinstance(a, T) for x in alts(a)]:
            if b not in grown or loop in i.objs[b.args[0]].get("loops", ()):
                continue
            adds = [g for g in grown[b] if loop in g.loops and g.loops[-1] != loop]
            if not adds:
                continue
            cons = f"{nm}:{e.fn.rsplit('.', 1)[1]}:joined"
            if any(loop in d.loops for d in cleared.get(b, ())):
                c.ok(R_STAT, cons, "emptied for every checkpoint")
            else:
                c.bad(R_STAT, cons, f"the list joined while one checkpoint is processed was created before the loop over "
                      f"the checkpoints and still holds the values of the earlier ones (filled at {adds[0].loc})", e.loc)


def weights_from(step_fn, n):
    """step_fn(i) -> (a_i, w_i): final weight of each contribution."""
    st = [step_fn(k) for k in range(n)]
    if any(x is None for x in st):
        return None
    out = []
    for j in range(n):
        w = st[j][1]
        for k in range(j + 1, n):
            w *= st[k][0]
        out.append(w)
    return out


def judge_mean(c, cons, w, loc, what):
    if w is None:
        c.unknown(R_COMB, cons, "running update not understood")
    elif all(abs(x - 1 / N) < 1e-9 for x in w):
        c.ok(R_COMB, cons, "mean")
    else:
        c.bad(R_COMB, cons, f"{what}: with {N} checkpoints their weights are {[round(x, 4) for x in w]}, expected "
              f"{[1 / N] * N}", loc)


def weight_factor(i, t, loop, depth=0):
    """Number of multiplicative weight_list[j] factors of a stored value; None if not understood."""
    k = _weight_factor(i, t, loop, depth)
    return k


def _weight_factor(i, t, loop, depth):
    wl = sym("init:weight_list")
    if depth > 40:
        return None
    o = t.op
    if is_weight(i, t, loop):
        return 1
    if o == "sub" and t.args[0] is wl or o == "elem" and t.args[0] is wl:
        return "another checkpoint's weight"
    if o == "bin" and t.args[0] == "**":
        a, k = weight_factor(i, t.args[1], loop, depth + 1), num(t.args[2], {}, N)
        return a * k if isinstance(a, (int, float)) and k is not None else None
    if o == "bin" and t.args[0] == "*":
        a, b = weight_factor(i, t.args[1], loop, depth + 1), weight_factor(i, t.args[2], loop, depth + 1)
        return add(a, b)
    if o == "bin" and t.args[0] == "/":
        a, b = weight_factor(i, t.args[1], loop, depth + 1), weight_factor(i, t.args[2], loop, depth + 1)
        return add(a, b, -1)
    if o == "call" and t.args[0].op == "attr" and t.args[0].args[0] is wl:
        n = t.args[0].args[1]
        if n in ("numel", "size", "dim", "element_size", "__len__", "ndimension"):
            return 0
        if n in ("sum", "mean", "max", "min", "norm", "prod", "median"):
            return f"the {n} of all weights"
    if o == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("len", "builtins.len", "torch.numel") and len(t.args[1]) == 1 and t.args[1][0] is wl:
        return 0
    if o == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("sum", "torch.sum", "torch.mean", "max", "min") and len(t.args[1]) == 1 and t.args[1][0] is wl:
        return f"the {t.args[0].args[0].split('.')[-1]} of all weights"
    if o == "call" and t.args[0].op == "attr":
        return weight_factor(i, t.args[0].args[0], loop, depth + 1)
    if o == "attr" and t.args[0] is wl and t.args[1] in ("shape", "ndim", "device", "dtype"):
        return 0
    if o in ("T",):
        return weight_factor(i, t.args[0], loop, depth + 1)
    if o in ("matmul",):
        a, b = weight_factor(i, t.args[0], loop, depth + 1), weight_factor(i, t.args[1], loop, depth + 1)
        return add(a, b)
    if o == "phi":
        s = {weight_factor(i, x, loop, depth + 1) for x in t.args}
        return s.pop() if len(s) == 1 else None
    if o == "call" and t.args[0].op == "ext" and t.args[0].args[0].startswith("torch."):
        fs = [weight_factor(i, x, loop, depth + 1) for x in t.args[1]]
        k = 0
        for x in fs:
            k = add(k, x)
        return k
    return 0 if not any(x is wl for x in i.expand(t)) else None


def add(a, b, sign=1):
    for x in (a, b):
        if isinstance(x, str):
            return x
    return None if a is None or b is None else a + sign * b


def is_weight(i, t, loop):
    wl = sym("init:weight_list")
    if t.op == "elem" and t.args[0] is wl:
        return t.args[1] == loop
    if t.op == "sub" and t.args[0] is wl and t.args[1].op == "idx":
        return t.args[1].args[0] == loop
    return False


def check_comb(c, s, nm, r):
    i = r.i
    res = r.results["main"]
    if res is None:
        return
    fn = r.cls.find(r.repo, [x for x in s.calls if x[0] == "main"][0][1])
    if s.name.startswith("RPS"):
        return
    once = one_per_ckpt(r)
    PER_CKPT.update(once)
    try:
        for v in alts(res):
            a, k = scaled(v)
            if a is not None:
                alloc_comb(c, s, nm, r, a, fn, k)
        running(c, nm, r, res, fn)
    finally:
        PER_CKPT.difference_update(once)


def one_per_ckpt(r):
    """Lists that get exactly one element per checkpoint."""
    i = r.i
    adds = {}
    for e in i.events:
        if e.kind == "call" and e.recv is not None and str(e.callee).rsplit(".", 1)[-1] in ("append", "extend", "insert"):
            for x in alts(e.recv):
                adds.setdefault(x, []).append(e)
    out = set()
    for x, es in adds.items():
        if x.op == "obj" and len(es) == 1 and len(es[0].loops) == 1 and ckpt_loops(r, es[0].loops) and str(es[0].callee).endswith("append"):
            out.add(x)
    return out - PER_CKPT


def scaled(t, k=1.0):
    """(allocation, factor) of a value made from one allocation by multiplying with numbers; factor None if unknown."""
    a, _ = base_alloc(t)
    if a is not None:
        return a, k
    while t.op == "T" or t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("detach", "cpu", "to", "clone", "contiguous", "div", "mul"):
        if t.op == "call" and t.args[0].args[1] in ("div", "mul"):
            t = mk("bin", "/" if t.args[0].args[1] == "div" else "*", t.args[0].args[0], t.args[1][0]) if t.args[1] else t.args[0].args[0]
            break
        t = t.args[0] if t.op == "T" else t.args[0].args[0]
    if t.op == "bin" and t.args[0] in ("/", "*"):
        for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if t.args[0] == "/" and y is t.args[1]:
                continue
            a, f = scaled(x, k)
            if a is not None:
                v = num(y, {}, N)
                return a, None if f is None or not v else f / v if t.args[0] == "/" else f * v
    return None, None


def running(c, nm, r, res, fn):
    i = r.i
    # running values in functional form
    for lv, (init, upd) in list(i.lvinfo.items()):
        if not isinstance(upd, T) or not contains_lv(upd, lv):
            continue
        loop = lv.args[0]
        li = i.loopinfo.get(loop)
        if li is None or li.get("iter") is None or not mentions_ckpts(i, li["iter"]):
            continue
        if upd.op == "ind" or num_update(upd, lv):
            continue
        if not tensor_like(i, upd):
            continue
        cons = f"{nm}:{fn.name}:{lv.args[3] if len(lv.args) > 3 else 'running'}"

        def step(k):
            af = affine(upd, lv, {loop: k}, N)
            if af is None or not af[1]:
                return None
            ws = {round(w, 12) for w, _ in af[1]}
            return (af[0], af[1][0][1] and af[1][0][0]) if len(ws) == 1 else None
        pos = ckpt_loop_positions(i, loop, N)
        if pos is None or len(pos) != N:
            continue
        w = weights_from(step, N)
        post = post_scale(i, res, upd, lv)
        if w is not None:
            w = None if post is None else [x * post for x in w]
        judge_mean(c, cons, w, fn.loc(), "running combination over checkpoints")


def post_scale(i, res, upd, lv):
    """Numeric factor applied to the running value after the loop (1.0 if none visible)."""
    for t in i.expand(res, follow_lv=False):
        if t.op == "bin" and t.args[0] in ("/", "*"):
            for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                k = num(b, {}, N)
                if a is upd or a is lv or a.op == "loopout" and (upd in a.args or summed(a, upd, lv)):
                    if not k:
                        if t.args[0] == "/" and b is t.args[2]:
                            return None
                        continue
                    return 1.0 / k if t.args[0] == "/" and b is t.args[2] else float(k)
    return 1.0


def summed(t, upd, lv):
    """Whether a value that leaves a loop is the sum this update builds there."""
    if upd.op != "bin" or upd.args[0] != "+" or not any(x is lv for x in upd.args[1:]):
        return False
    step = upd.args[2] if upd.args[1] is lv else upd.args[1]
    return any(isinstance(x, T) and x.op == "ind" and x.args[1] is step and x.args[2] == lv.args[0] for x in t.args)


def num_update(upd, lv):
    """Scalar counters (lv + const) are not results."""
    return upd.op == "bin" and upd.args[0] in "+-" and any(x is lv for x in upd.args[1:]) and \
        any(x.op == "const" for x in upd.args[1:])


def tensor_like(i, upd):
    return any(E.func_of(x) is not None or (x.op == "sym" and x.args[0] == "init:correct_probability_func") or
               x.op == "call" for x in i.expand(upd, follow_lv=False))


def contains_lv(t, lv):
    from ..interp import contains
    return contains(t, lv)


class Added:
    """A store of the block's own value plus something, seen as an addition."""

    def __init__(self, e):
        self.e = e

    def __getattr__(self, name):
        return getattr(self.e, name)

    @staticmethod
    def part(e, a):
        v = e.value
        if not isinstance(v, T) or v.op != "bin" or v.args[0] != "+":
            return None
        for x, y in ((v.args[1], v.args[2]), (v.args[2], v.args[1])):
            if x.op == "sub" and x.args[1] is e.index and base_alloc(x.args[0])[0] is a:
                return y
        return None


def alloc_comb(c, s, nm, r, a, fn, factor=1.0):
    i = r.i
    evs = []
    for e in r.events("main"):
        if e.kind in ("inplace", "substore") and e.base is not None:
            b, _ = base_alloc(e.base)
            if b is a:
                evs.append(e)
    stores = [Added(e) if e.d.get("op") is None and Added.part(e, a) is not None else e for e in evs if e.kind == "substore"]
    for e in stores:
        if isinstance(e, Added):
            e.value, e.d = Added.part(e, a), dict(e.d, op="+")
    if not stores:
        return
    cons = f"{nm}:{fn.name}:result"
    loops = {tuple(ckpt_loops(r, e.loops)) for e in stores}
    if any(not l for l in loops):
        e = [x for x in stores if not ckpt_loops(r, x.loops)][0]
        if not [x for x in stores if ckpt_loops(r, x.loops)]:
            c.unknown(R_COMB, cons, "result stored outside a checkpoint loop")
        return
    loop = list(loops)[0][-1]
    pos = ckpt_loop_positions(i, loop, N)
    if pos is None or len(pos) != N:
        return
    for e in stores:
        if e.d.get("op") not in ("+", "-"):
            c.bad(R_COMB, cons + ":overwrite", "a block is overwritten for every checkpoint instead of accumulated", e.loc)
            return
    first, last = min(e.seq for e in stores), max(e.seq for e in stores)

    def scale(e, env):
        k = num(e.value, env, N) if e.value is not None else None
        if k is None:
            return None
        return k if e.d.get("op") == "*" else (1.0 / k if e.d.get("op") == "/" and k else None)

    tracin = any(x is sym("init:weight_list") for st in r.events("__init__", "setattr") for x in [st.value]) or \
        sym("init:weight_list") in {x for e in stores for x in i.expand(e.value)}

    def step(k):
        aa, bb = 1.0, 1.0
        for e in evs:
            if e.kind != "inplace" or e.d.get("op") not in ("*", "/"):
                continue
            cl = ckpt_loops(r, e.loops)
            if not cl:
                continue
            if e.loops[-1] != loop:
                return None      # scaled once per batch
            v = scale(e, {loop: k})
            if v is None:
                return None
            if e.seq < first:
                aa *= v
            else:
                bb *= v
        return aa * bb, bb
    per_batch = [e for e in evs if e.kind == "inplace" and e.d.get("op") in ("*", "/") and loop in e.loops and e.loops[-1] != loop]
    if per_batch:
        c.bad(R_COMB, cons + ":rescale", "the whole result is rescaled once per batch, not once per checkpoint",
              per_batch[0].loc)
        return
    w = weights_from(step, N)
    if w is not None:
        for e in evs:
            if e.kind == "inplace" and loop not in e.loops and e.d.get("op") in ("*", "/"):
                k = scale(e, {loop: pos[-1]})
                if k is None:
                    w = None
                    break
                if e.seq > last:
                    w = [x * k for x in w]
    if w is not None:
        w = None if factor is None else [x * factor for x in w]
    if tracin or "TracIn" in s.name:
        if w is None:
            c.unknown(R_COMB, cons, "running update not understood")
            return
        if any(abs(x - 1) > 1e-9 for x in w):
            c.bad(R_COMB, cons, f"checkpoint contributions are rescaled to {w}; expected the caller's weights only", fn.loc())
            return
        for e in stores:
            for v in alts(e.value):
                k = weight_factor(i, v, loop)
                if k is None:
                    c.unknown(R_COMB, cons, "weight factor not understood")
                elif k == 1:
                    c.ok(R_COMB, cons, "weight_list[j]")
                elif isinstance(k, str):
                    c.bad(R_COMB, cons, f"a checkpoint's contribution is weighted by {k}", e.loc)
                else:
                    c.bad(R_COMB, cons, f"a checkpoint's contribution carries weight_list[j]**{k}, expected exactly once", e.loc)
    else:
        # contributions may carry the 1/n themselves
        if w is not None:
            ks = set()
            for e in stores:
                for v in alts(e.value):
                    ks.add(lead(v, loop))
            if len(ks) == 1:
                k = ks.pop()
                w = [x * k for x in w]
        judge_mean(c, cons, w, fn.loc(), "running combination over checkpoints")


def lead(t, loop):
    """Leading numeric factor of a contribution."""
    if t.op == "bin" and t.args[0] in ("*", "/"):
        k = num(t.args[2], {}, N)
        if k:
            return lead(t.args[1], loop) * (k if t.args[0] == "*" else 1.0 / k)
        k = num(t.args[1], {}, N)
        if k and t.args[0] == "*":
            return lead(t.args[2], loop) * k
    return 1.0


def loading(c):
    cks, ld = sym("user_ckpts"), sym("user_load")
    r = attributor(c.repo, TASK, init=dict(loss_func=sym("user_loss"), target_func=NONE, checkpoints=cks,
                                           checkpoints_load_func=ld),
                   nonnull=lambda t: True if t.op == "sym" and t.args[0].startswith("user_") else None,
                   kinds=lambda t: "list" if t is cks else None, opaque=())
    c.functions |= r.i.inlined
    f = c.repo.cls(TASK).find(c.repo, "get_param")
    for n, (k, must) in enumerate(((0, True), (1, True), (1, False), (0, True), (2, True))):
        res = r.call("get_param", key=f"s{n}", ckpt_idx=const(k), layer_name=NONE, layer_split=const(False), param_layer_map=NONE)
        loads = [e for e in r.events(f"s{n}", "call") if e.d.get("func") is not None and ld in alts(e.func)]
        cons = f"AttributionTask.get_param#{n}({k})"
        if not must:
            c.ok(R_LOAD, cons, "already current") if True else None
            continue
        if not loads:
            c.bad(R_LOAD, cons, f"asking for checkpoint {k} after another one does not load it", f.loc())
            continue
        e = loads[-1]
        want = mk("sub", cks, const(k))
        got = list(e.args) + [v for _, v in e.kwargs]
        if want in got:
            c.ok(R_LOAD, cons)
        elif any(x.op == "sub" and x.args[0] is cks for x in got):
            c.bad(R_LOAD, cons, f"asking for checkpoint {k} loads {', '.join(show(x) for x in got)}", e.loc)
        else:
            c.unknown(R_LOAD, cons, f"load arguments {', '.join(show(x, 3) for x in got)[:100]}")
        if res is not None:
            ex = r.i.expand(res)
            if e.result in ex:
                c.ok(R_LOAD, cons + ":parameters")
            elif any(x.op == "call" and x.args[0] is e.func and x is not e.result for x in ex):
                c.bad(R_LOAD, cons + ":parameters", "the returned parameters belong to a model loaded earlier", f.loc())
            else:
                c.unknown(R_LOAD, cons + ":parameters", show(res, 4)[:100])
