"""C02: train samples use the loss, test samples use the target function."""
from __future__ import annotations

from .. import evals as E
from ..drive import FULL, LAYER, TEST, TRAIN, TASK, attributor
from ..interp import is_alloc
from ..scen import DVEMB, blocks, table
from ..terms import NONE, T, alts, children, const, show, sym

R_REP = "representation-role"
R_CURV = "curvature-role"
R_TASK = "task-wiring"
LOADERS = {TRAIN, TEST, FULL}


def run(c):
    c.rule(R_REP, "a score's numerator contains loss derivatives on train data and target derivatives on test data; "
                  "never target derivatives on train data or loss derivatives on test data (self-attribution pairs "
                  "the loss and the target on the train data)")
    c.rule(R_CURV, "inverse-Hessian products, Fisher/Kronecker statistics and Arnoldi bases are built from the loss, "
                   "on train data (on the cached full data when there is one)")
    c.rule(R_TASK, "AttributionTask returns functions derived from the caller's loss_func / target_func respectively")
    for s in table():
        if s.name.startswith("KNN"):
            continue
        c.scenarios.append(s.name)
        for layer in (NONE, LAYER):
            if layer is LAYER and ("EKFAC" in s.name or s.name.startswith("RPS")):
                continue
            with c.guard(s.name):
                r = s.build(c.repo, extra_init=dict(layer_name=layer))
                c.functions |= r.i.inlined
                check(c, s, r)
    backward_passes(c)
    task(c)
    c.need(R_REP, 25)
    c.need(R_CURV, 8)
    c.need(R_TASK, 8)


def stores(r):
    """alloc -> values stored into it (substore / inplace / aug)."""
    out = {}
    for e in r.events():
        if e.kind in ("substore", "inplace"):
            b = e.base
            while b is not None and not is_alloc(b) and b.op in ("T", "sub"):
                b = b.args[0]
            if b is not None and is_alloc(b) and e.value is not None:
                out.setdefault(b, []).append(e.value)
    return out


def in_data(i, terms):
    """Loaders whose samples reach the given argument terms."""
    out = set()
    for t in terms:
        for x in i.expand(t):
            if x in LOADERS:
                out.add(x)
    return out


def is_param(i, t):
    """A parameter argument (comes from the task, not from a loader)."""
    return not in_data(i, [t])


def numerator_evals(r, roots):
    """(kind, how, data loaders, term) for every task-function evaluation in the numerator of the roots."""
    i = r.i
    st = stores(r)
    seen, out = set(), []
    todo = list(roots)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t in st:
            todo.extend(st[t])
        if t.op == "call":
            fs = E.callee_funcs(i, t.args[0])
            if fs and not (E.task_call(t)):
                via = t.args[0]
                for (kind, ft, b), extra in fs:
                    opaque = handed(t.args[0])
                    if opaque:
                        out.append((kind, "curvature:" + opaque, in_data(i, list(extra) + opaque_args(t.args[0])), t))
                    else:
                        out.append((kind, "rep", in_data(i, list(extra) + list(t.args[1]) + [v for _, v in t.args[2]]), t))
                if handed(t.args[0]):
                    # the vector(s) the inverse Hessian is applied to
                    todo.extend(t.args[1])
                    todo.extend(v for k, v in t.args[2] if k not in ("in_dims_kwargs",))
                continue
        if t.op == "bin" and t.args[0] in ("/", "//"):
            todo.append(t.args[1])
            continue
        if t.op in ("dim", "cmp", "not", "slice"):
            continue
        if t.op == "sub":
            todo.append(t.args[0])
            continue
        if t.op == "obj":
            for how, v in i.contents.get(t.args[0], ()):
                todo.append(v)
            for kk, v in i.S.heap.get(t.args[0], {}).items():
                if isinstance(v, T) and i.objs[t.args[0]]["kind"] != "inst":
                    todo.append(v)
        elif t.op == "lv" and t in i.lvinfo:
            todo.extend(x for x in i.lvinfo[t] if isinstance(x, T))
        todo.extend(children(t))
    return out


def handed(ft):
    """Name of the opaque routine a callable was produced by (ihvp_cg(...), arnoldi_project(...))."""
    for x in alts(ft):
        y = x
        while y.op == "partial":
            y = y.args[0]
        while y.op == "sub" or y.op == "pick":
            y = y.args[0]
        if y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0].startswith("dattri."):
            return y.args[0].args[0].rsplit(".", 1)[1]
    return None


def opaque_args(ft):
    out = []
    for x in alts(ft):
        y = x
        while y.op in ("partial", "sub", "pick"):
            y = y.args[0]
        if y.op == "call":
            out += [v for k, v in y.args[2] if k != "func"] + list(y.args[1])
    return out


def names(ls):
    return "{" + ", ".join(sorted(show(x) for x in ls)) + "}"


def check(c, s, r):
    i = r.i
    res = r.results["main"]
    roles = s.roles
    train_roles = {roles["train"]} | ({FULL} if "full" in roles else set())
    test = roles.get("test")
    self_attr = test is None
    fn = r.cls.find(r.repo, [x for x in s.calls if x[0] == "main"][0][1])
    if s.name.startswith("RPS"):
        rps(c, s, r)
        return
    found = set()
    if res is not None:
        for kind, how, ld, t in numerator_evals(r, alts(res)):
            if how != "rep":
                continue
            cons = f"{s.name}:{kind}"
            if not ld:
                c.unknown(R_REP, cons, f"data of {show(t, 3)[:80]} not traced to a loader")
                continue
            for l in ld:
                role = "test" if l is test else "train" if l in train_roles else "other"
                found.add((kind, role))
                good = (kind, role) in (("loss", "train"), ("target", "test")) or \
                       (self_attr and (kind, role) == ("target", "train"))
                if good:
                    c.ok(R_REP, cons, f"{role} data {show(l)}")
                else:
                    c.bad(R_REP, cons + f"@{role}", f"the {kind} function is evaluated on {role} data ({show(l)}) to "
                          f"represent a sample of the score", fn.loc())
        want = {("loss", "train")} if self_attr else {("loss", "train"), ("target", "test")}
        if s.name.startswith("DVEmb"):
            want = {("target", "test")}
        for w in want - found:
            c.bad(R_REP, f"{s.name}:missing-{w[0]}-{w[1]}",
                  f"no derivative of the {w[0]} function on {w[1]} data reaches the scores", fn.loc())
    # curvature: every place where a task function is handed to a numerical routine or applied through one
    curv_roles = {FULL} if "full" in roles else {roles["train"]}
    for ev in E.evaluations(r):
        if ev.how.startswith("handed:"):
            rt = ev.how[7:]
            if rt in ("random_project",):
                continue
            direct = any(E.callee_funcs(i, v) for k, v in (ev.e.d.get("bound") or {}).items() if isinstance(v, T) and k == "func")
            if not direct:
                continue
            cons = f"{s.name}:{ev.e.fn.rsplit('.', 1)[1]}:{rt}"
            if ev.kind != "loss":
                c.bad(R_CURV, cons, f"{rt} is built from the {ev.kind} function", ev.e.loc)
            else:
                c.ok(R_CURV, cons, "loss")
            ld = in_data(i, E.parts(ev))
            judge_curv(c, cons, ld, curv_roles, ev.e.loc)
        else:
            rt = handed(ev.e.d.get("func"))
            if rt:
                cons = f"{s.name}:{ev.e.fn.rsplit('.', 1)[1]}:{rt}()"
                extra = []
                for f, ex in E.callee_funcs(i, ev.e.func):
                    extra += list(ex)
                # a batch of curvature data may be passed next to the parameters (LiSSA): tuple arguments
                for a in ev.e.args[:1]:
                    extra.append(a)
                ld = in_data(i, extra + opaque_args(ev.e.func))
                if ld:
                    judge_curv(c, cons, ld, curv_roles, ev.e.loc)


def judge_curv(c, cons, ld, roles, loc):
    for l in ld:
        if l in roles:
            c.ok(R_CURV, cons + ":data", show(l))
        else:
            c.bad(R_CURV, cons + ":data", f"curvature is built on {show(l)}, expected {names(roles)}", loc)


def rps(c, s, r):
    """RPS is documented to use the (non-flattened) target function on train data only."""
    for ev in E.evaluations(r):
        ld = in_data(r.i, E.parts(ev))
        cons = f"{s.name}:{ev.e.fn.rsplit('.', 1)[1]}"
        fine = {s.roles["train"], FULL} if "full" in s.roles else {s.roles["train"]}
        if ld - fine:
            c.bad(R_REP, cons, f"the fine-tuning objective reads {names(ld - fine)}", ev.e.loc)
        elif ld:
            c.ok(R_REP, cons, names(ld))


def task(c):
    L, G = sym("user_loss"), sym("user_target")
    for tgt, tn in ((G, "target"), (NONE, "no target")):
        for layer in (NONE, sym("user_layer")):
            for flat in (True, False):
                r = attributor(c.repo, TASK, init=dict(loss_func=L, target_func=tgt, checkpoints_load_func=NONE),
                               nonnull=lambda t: True if t in (L, G) or t.args and t.args[0] == "user_layer" else None)
                c.functions |= r.i.inlined
                for m, want in (("get_loss_func", L), ("get_grad_loss_func", L), ("get_target_func", tgt),
                                ("get_grad_target_func", tgt)):
                    want = L if want is NONE else want
                    kw = dict(layer_name=layer, ckpt_idx=sym("user_ckpt"))
                    if m in ("get_loss_func", "get_target_func"):
                        from ..terms import const
                        kw["flatten"] = const(flat)
                        if not flat and layer is not NONE:
                            continue
                    elif not flat:
                        continue
                    res = r.call(m, **kw)
                    cons = f"AttributionTask.{m}({'layer' if layer is not NONE else 'all'},{tn}{',flatten' if flat else ''})"
                    if res is None:
                        c.unknown(R_TASK, cons, "no normal return")
                        continue
                    got = {x for x in r.i.expand(res) if x in (L, G)}
                    other = ({L, G} - {want})
                    if want in got and not (got & other):
                        c.ok(R_TASK, cons)
                    elif not got:
                        c.unknown(R_TASK, cons, "provenance not resolved")
                    else:
                        f = c.repo.cls(TASK).find(c.repo, m)
                        c.bad(R_TASK, cons, f"returns a function derived from {names(got)}, expected {show(want)}", f.loc())


# ---------------------------------------------------------------- gradients captured from a backward pass
def backward_passes(c):
    """DVEmb and block-projected attribution evaluate the task's functions batch by batch and keep what they capture."""
    batch = sym("train_batch")
    for ft in ("none", "kronecker", "elementwise"):
        name = "DVEmb." + ft
        with c.guard(name):
            r = attributor(c.repo, DVEMB, init=dict(factorization_type=const(ft)))
            r.call("cache_gradients", batch_data=batch)
            r.call("cache")
            r.call("attribute", test_dataloader=TEST)
            captured(c, name, r, {batch: "train", TEST: "test"}, ("cache_gradients", "attribute"))
    for s in blocks():
        with c.guard(s.name):
            r = s.build(c.repo)
            captured(c, s.name, r, {TRAIN: "train", FULL: "train", TEST: "test"}, [k for k, _, _ in s.calls])


def captured(c, name, r, roles, keys):
    c.scenarios.append(name)
    c.functions |= r.i.inlined
    want = {"train": "loss", "test": "target"}
    for ev in E.evaluations(r, [e for k in keys for e in r.events(k)]):
        if ev.how != "apply":
            continue
        data = {x for t in E.parts(ev) for x in r.i.expand(t) if x in roles}
        cons = f"{name}:{ev.e.fn.rsplit('.', 1)[1]}"
        got = {roles[x] for x in data}
        if len(got) != 1:
            c.unknown(R_REP, cons, f"data of the {ev.kind} evaluation not traced")
            continue
        role = got.pop()
        if ev.kind == want[role]:
            c.ok(R_REP, f"{cons}@{role}", ev.kind)
        else:
            c.bad(R_REP, f"{cons}@{role}", f"the {ev.kind} function is evaluated on {role} data to represent a sample",
                  ev.e.loc)
