"""C17: inconsistent requests are refused before any computation."""
from __future__ import annotations

import ast
import re

from .. import evals as E
from ..drive import ALG, FULL, IF, LAYER, OPAQUE_MODS, TASK, TEST, TRAIN, attributor, functions
from ..fold import UNK, Truth, facts_of
from ..interp import Dead
from ..num import is_ckpts
from ..scen import BLOCK, BLOCK_OPAQUE, DVEMB, FACT, IFS, KNN, LOGRA, TRACIN, TRAK
from ..terms import NONE, T, alts, attr, const, mk, show, sym
from .c16 import reads

R_REF = "invalid-request-refused"
R_VAL = "valid-request-accepted"
R_PRE = "refused-before-computing"
R_DOC = "documented-error-raised"


def run(c):
    c.rule(R_REF, "with the facts of an invalid request assumed, every path of the entry point ends in the documented error")
    c.rule(R_PRE, "on those paths no loader is read, no gradient or parameter is requested and nothing is written first")
    c.rule(R_VAL, "with the facts of a valid request assumed, the entry point returns and that error is not raised")
    c.rule(R_DOC, "every exception class a function documents under Raises is raised by it or by a function it calls")
    for case in cases(c):
        with c.guard(case.name):
            case.check(c)
    documented(c)
    c.need(R_REF, 30)
    c.need(R_VAL, 20)
    c.need(R_DOC, 30)


def exc_name(t, i=None):
    for x in alts(t):
        f = x.args[0] if x.op == "call" else x
        if x.op == "obj" and i is not None and i.objs[x.args[0]].get("cls") is not None:
            return i.objs[x.args[0]]["cls"].name
        if isinstance(f, T) and f.op in ("ext", "class"):
            return f.args[0].rsplit(".", 1)[-1]
    return None


def relevant(r, cd):
    """Does an undecided condition speak about the assumed facts?"""
    facts = getattr(r.i.cfg.truth, "facts", None)
    for x in r.i.expand(cd):
        if x.op in ("const", "tuple"):
            continue
        if facts is not None and facts(x) is not UNK:
            return True
        if facts is None and r.i.cfg.truth(x) is not None:
            return True
    return False


def loop_over(r, e):
    it = r.i.loopinfo.get(e.loops[-1], {}).get("iter")
    return show(it, 3) if it is not None else "data"


def computing(r, key, upto):
    """The first computation event of a call range."""
    out = []
    for l, e in reads(r, key):
        out.append((e.seq, e, f"{l.args[0]} is read"))
    for ev in E.evaluations(r, r.events(key, "call")):
        out.append((ev.e.seq, ev.e, f"the {ev.kind} function is evaluated"))
    for e in r.events(key, "call"):
        nm = str(e.callee).rsplit(".", 1)[-1]
        if nm in ("backward", "manual_seed", "mkdir", "save", "open", "makedirs", "write_text"):
            out.append((e.seq, e, f"{nm}() is called"))
        f = e.d.get("func")
        if f is not None and f.op == "sym":
            out.append((e.seq, e, f"{f.args[0]} is called"))
        tc = E.task_call(e.result) if e.result is not None else None
        if tc and tc[0] == "get_param":
            out.append((e.seq, e, "parameters are loaded"))
    out = [o for o in out if o[0] <= upto]
    return min(out, key=lambda o: o[0]) if out else None


class Case:
    """One entry point with invalid and valid assumptions."""

    def __init__(self, name, exc, build, invalid, valid=(), pre=True):
        self.name, self.exc, self.build, self.invalid, self.valid, self.pre = name, exc, build, invalid, valid, pre

    def check(self, c):
        c.scenarios.append(self.name)
        for tag, kw in self.invalid:
            cons = f"{self.name}[{tag}]"
            r, key, res = self.build(c.repo, **kw)
            c.functions |= r.i.inlined
            rs = r.events(key, "raise")
            if res is not None:
                mine = [e for e in rs if exc_name(e.exc, r.i) in self.exc]
                where = next((e.loc for e in mine or rs or r.events(key)), "")
                why, und = "it is never raised", False
                for e in mine:
                    base = set(r.base_pc) if hasattr(r, "base_pc") else set()
                    und = und or any(relevant(r, cd) for cd, v in e.pc)
                    why = ("it is only raised inside a loop over " + loop_over(r, e) if e.loops else
                           "it is only raised when " + "; ".join(f"{show(cd, 4)} is {v}" for cd, v in e.pc))
                if und:
                    c.unknown(R_REF, cons, f"condition not decided: {why}")
                else:
                    c.bad(R_REF, cons, f"a path returns normally, {'/'.join(self.exc)} expected on every path: {why}", where)
                continue
            got = {exc_name(e.exc, r.i) for e in rs}
            ok = got & set(self.exc)
            if not ok:
                c.bad(R_REF, cons, f"raises {sorted(map(str, got))}, documented: {'/'.join(self.exc)}",
                      rs[0].loc if rs else "")
                continue
            last = max(e.seq for e in rs if exc_name(e.exc, r.i) in self.exc)
            c.ok(R_REF, cons)
            if self.pre:
                hit = computing(r, key, last)
                if hit:
                    c.bad(R_PRE, cons, f"before the request is refused {hit[2]}", hit[1].loc)
                else:
                    c.ok(R_PRE, cons)
        for tag, kw in self.valid:
            cons = f"{self.name}[{tag}]"
            r, key, res = self.build(c.repo, **kw)
            rs = [e for e in r.events(key, "raise") if exc_name(e.exc, r.i) in self.exc and not e.loops]
            if res is None:
                c.bad(R_VAL, cons, "no path returns normally", rs[0].loc if rs else "")
            elif rs and any(not any(x for x in e.pc) for e in rs):
                c.bad(R_VAL, cons, f"{exc_name(rs[0].exc, r.i)} is raised for a valid request", rs[0].loc)
            else:
                c.ok(R_VAL, cons)


def ckpt_facts(n, extra=None, pred=()):
    d = dict(extra or {})
    return facts_of(d, ((lambda t: t.op == "dim" and t.args[1] == 0 and is_ckpts(t.args[0]), n),) + tuple(pred))


def strs(*ts):
    """kinds hook for option symbols that hold strings etc."""
    return None


def dim(name):
    return mk("dim", sym(name), 0)


def cases(c):
    W = sym("init:weight_list")
    # ---- TracIn: one weight per checkpoint
    for m, params in (("attribute", dict(train_dataloader=TRAIN, test_dataloader=TEST)),
                      ("self_attribute", dict(train_dataloader=TRAIN))):
        def b(repo, nck, nw, m=m, params=params):
            r = attributor(repo, TRACIN, truth=Truth(ckpt_facts(nck, {mk("dim", W, 0): nw})))
            return r, "main", r.call(m, key="main", **params)
        yield Case(f"TracIn.{m}:weights", ("ValueError",), b,
                   [("2 checkpoints,3 weights", dict(nck=2, nw=3)), ("3 checkpoints,2 weights", dict(nck=3, nw=2)),
                    ("1 checkpoint,4 weights", dict(nck=1, nw=4)), ("2 checkpoints,no weights", dict(nck=2, nw=0))],
                   [("1,1", dict(nck=1, nw=1)), ("3,3", dict(nck=3, nw=3))])
    # ---- TRAK: exactly one source of training data
    for m, extra in (("attribute", dict(test_dataloader=TEST)), ("self_attribute", {})):
        def b(repo, cached, train, m=m, extra=extra):
            r = attributor(repo, TRAK)
            if cached:
                r.call("cache", key="cache", full_train_dataloader=FULL)
            return r, "main", r.call(m, key="main", train_dataloader=TRAIN if train else NONE, **extra)
        yield Case(f"TRAK.{m}:training-loader", ("ValueError",), b,
                   [("cached and given again", dict(cached=True, train=True)),
                    ("neither cached nor given", dict(cached=False, train=False))],
                   [("cached", dict(cached=True, train=False)), ("given", dict(cached=False, train=True))])

    # ---- EK-FAC: one checkpoint
    def b(repo, n):
        r = attributor(repo, IF + "IFAttributorEKFAC", may_fail=True, truth=Truth(ckpt_facts(n)))
        return r, "__init__", None if r.dead else r.obj
    yield Case("EKFAC.__init__:checkpoints", ("ValueError",), b, [("2", dict(n=2)), ("5", dict(n=5))], [("1", dict(n=1))])

    # ---- KNN
    def b(repo, task):
        r = attributor(repo, KNN, init=dict(task=task), may_fail=True,
                       nonnull=lambda t: True if t is sym("task") else None)
        return r, "__init__", None if r.dead else r.obj
    yield Case("KNN.__init__:task", ("NotImplementedError",), b, [("task given", dict(task=sym("task")))],
               [("no task", dict(task=NONE))])

    def b(repo, ntl, ntr, nel, nte):
        tl, el = sym("train_labels"), sym("test_labels")
        f = facts_of({mk("dim", tl, 0): ntl, mk("dim", el, 0): nel, mk("dim", attr(TRAIN, "sampler"), 0): ntr,
                      mk("dim", attr(TEST, "sampler"), 0): nte})
        r = attributor(repo, KNN, init=dict(task=NONE), truth=Truth(f),
                       nonnull=lambda t: True if t in (tl, el) else None)
        return r, "main", r.call("attribute", key="main", train_dataloader=TRAIN, test_dataloader=TEST,
                                 train_labels=tl, test_labels=el)
    yield Case("KNN.attribute:labels", ("ValueError",), b,
               [("too few train labels", dict(ntl=3, ntr=4, nel=2, nte=2)), ("too many train labels", dict(ntl=5, ntr=4, nel=2, nte=2)),
                ("too few test labels", dict(ntl=4, ntr=4, nel=1, nte=2)), ("too many test labels", dict(ntl=4, ntr=4, nel=3, nte=2))],
               [("matching", dict(ntl=4, ntr=4, nel=2, nte=2))])

    # ---- score normalisation
    for cl in IFS:
        for m in ("attribute", "self_attribute"):
            def b(repo, method, cl=cl, m=m):
                r = attributor(repo, IF + cl)
                r.call("cache", key="cache", full_train_dataloader=FULL)
                p = dict(train_dataloader=TRAIN, relatif_method=const(method))
                if m == "attribute":
                    p["test_dataloader"] = TEST
                if r.cls.find(repo, m) is None or "relatif_method" not in argnames(r.cls.find(repo, m)):
                    raise Skip
                return r, "main", r.call(m, key="main", **p)
            if not accepts(c.repo, IF + cl, m):
                continue
            inv = [("unknown", dict(method="no-such-method")), ("empty string", dict(method=""))]
            val = [("l", dict(method="l"))]
            if cl == "IFAttributorArnoldi":
                inv_exc = ("ValueError", "NotImplementedError")
                inv = inv + [("theta", dict(method="theta"))]
            else:
                inv_exc = ("ValueError",)
                if cl not in ("IFAttributorDataInf", "IFAttributorEKFAC"):
                    val = val + [("theta", dict(method="theta"))]
            yield Case(f"{cl}.{m}:relatif_method", inv_exc, b, inv, val)

    # ---- Arnoldi before cache
    for m, extra in (("attribute", dict(test_dataloader=TEST)), ("self_attribute", {})):
        def b(repo, cached, m=m, extra=extra):
            r = attributor(repo, IF + "IFAttributorArnoldi",
                           truth=hasattr_truth("arnoldi_projectors", cached))
            if cached:
                r.call("cache", key="cache", full_train_dataloader=FULL)
            return r, "main", r.call(m, key="main", train_dataloader=TRAIN, relatif_method=NONE, **extra)
        yield Case(f"Arnoldi.{m}:uncached", ("ValueError",), b, [("not cached", dict(cached=False))],
                   [("cached", dict(cached=True))])

    # ---- AttributionTask
    for m in ("get_loss_func", "get_target_func"):
        def b(repo, layer, flatten, m=m):
            r = attributor(repo, TASK, init=dict(loss_func=sym("user_loss"), target_func=sym("user_target"),
                                                 checkpoints_load_func=NONE), nonnull=lambda t: True)
            return r, "main", r.call(m, key="main", flatten=const(flatten), layer_name=layer, ckpt_idx=sym("user_ckpt"))
        yield Case(f"AttributionTask.{m}:unflattened-layers", ("NotImplementedError",), b,
                   [("layers, not flattened", dict(layer=LAYER, flatten=False))],
                   [("layers", dict(layer=LAYER, flatten=True)), ("not flattened", dict(layer=NONE, flatten=False)),
                    ("flattened", dict(layer=NONE, flatten=True))])

    def b(repo, nmap, npar):
        M = sym("user_map")
        f = facts_of({mk("dim", M, 0): nmap, M: UNK},
                     ((lambda t: t.op == "dim" and t.args[1] == 0 and t.args[0] is not M, npar),))
        tr = Truth(f)
        r = attributor(repo, TASK, init=dict(loss_func=sym("user_loss"), target_func=sym("user_target"),
                                             checkpoints_load_func=NONE),
                       truth=lambda t: True if t is M else tr(t), nonnull=lambda t: True if t is M else None)
        tr.i = r.i
        return r, "main", r.call("get_param", key="main", layer_name=NONE, ckpt_idx=const(0), layer_split=const(True),
                                 param_layer_map=M)
    yield Case("AttributionTask.get_param:param_layer_map", ("ValueError",), b,
               [("too short", dict(nmap=3, npar=4)), ("too long", dict(nmap=5, npar=4))],
               [("matching", dict(nmap=4, npar=4))], pre=False)

    # ---- LoGra / FactGraSS
    def b(repo, d):
        P = sym("user_params")
        r = attributor(repo, LOGRA, init=dict(proj_params=P), may_fail=True, opaque_mods=BLOCK_OPAQUE,
                       nonnull=lambda t: True if t is P else None,
                       truth=proj_truth(P, Truth(facts_of({attr(P, "proj_dim_per_layer"): d,
                                                           sym("init:offload"): "cpu"}))))
        return r, "__init__", None if r.dead else r.obj
    yield Case("LoGra.__init__:proj_dim_per_layer", ("ValueError",), b,
               [(str(x), dict(d=x)) for x in (2, 8, 15, 17, 4095)], [(str(x), dict(d=x)) for x in (1, 4, 16, 4096)])

    def b(repo, d, k):
        P = sym("user_params")
        r = attributor(repo, FACT, init=dict(proj_params=P), may_fail=True, opaque_mods=BLOCK_OPAQUE,
                       nonnull=lambda t: True if t is P else None,
                       truth=proj_truth(P, Truth(facts_of({attr(P, "proj_dim_per_layer"): d,
                                                           sym("init:blowup_factor"): k,
                                                           sym("init:offload"): "cpu"}))))
        return r, "__init__", None if r.dead else r.obj
    yield Case("FactGraSS.__init__:intermediate_dim", ("ValueError",), b,
               [(f"{x}*{k}", dict(d=x, k=k)) for x, k in ((4, 2), (16, 2), (10, 4), (4096, 3))],
               [(f"{x}*{k}", dict(d=x, k=k)) for x, k in ((4, 4), (2, 2), (8, 2), (4096, 4))])

    # ---- block-projected storage
    def b(repo, off, cd):
        CD = sym("init:cache_dir") if cd else NONE
        r = attributor(repo, BLOCK, init=dict(offload=const(off), cache_dir=CD), may_fail=True,
                       opaque_mods=OPAQUE_MODS + ("dattri.algorithm.block_projected_if.core.",
                                                  "dattri.algorithm.block_projected_if.offload.disk_io."),
                       nonnull=lambda t: True if t is sym("init:cache_dir") else None)
        return r, "__init__", None if r.dead else r.obj
    yield Case("Block.__init__:offload", ("ValueError",), b,
               [("disk without cache_dir", dict(off="disk", cd=False)), ("unknown storage", dict(off="gpu", cd=True))],
               [("disk", dict(off="disk", cd=True)), ("cpu", dict(off="cpu", cd=False)), ("none", dict(off="none", cd=False))])

    # ---- DVEmb
    def dv(repo, fact="none", count=None, **kw):
        f = {sym("init:factorization_type"): fact}
        cnt = count if count is not None else (2 if fact == "none" else 3)
        tr = Truth(None)

        def empty_dict(t):
            return t.op == "obj" and tr.i.objs[t.args[0]]["kind"] == "dict" and not tr.i.contents.get(t.args[0])
        pred = [(lambda t: t.op == "dim" and t.args[0].op == "obj" and any(
            x.op == "attr" and x.args[1] == "parameters" for x in tr.i.expand(t)), cnt)]
        tr.facts = facts_of(f, tuple(pred))
        hook = DictTruth(tr, empty_dict)
        return attributor(repo, DVEMB, init=dict(factorization_type=const(fact), **kw), may_fail=True, truth=hook)

    def b(repo, fact, proj=None):
        r = dv(repo, fact, **({} if proj is None else dict(proj_params=proj)))
        return r, "__init__", None if r.dead else r.obj
    yield Case("DVEmb.__init__:factorization_type", ("ValueError",), b, [("unknown", dict(fact="no-such-type")),
                                                                         ("unknown, no projection", dict(fact="no-such-type", proj=NONE))],
               [("none", dict(fact="none")), ("kronecker", dict(fact="kronecker")), ("elementwise", dict(fact="elementwise"))])

    def b(repo, fact, count):
        r = dv(repo, fact, count)
        return r, "__init__", None if r.dead else r.obj
    yield Case("DVEmb.__init__:loss-signature", ("ValueError",), b,
               [("none,3 arguments", dict(fact="none", count=3)), ("kronecker,2 arguments", dict(fact="kronecker", count=2)),
                ("elementwise,2 arguments", dict(fact="elementwise", count=2))])

    def b(repo, setup):
        r = dv(repo)
        if setup == "uncached":
            pass
        else:
            r.i.setattr(r.obj, "embeddings", sym("embeddings"), None)
        ep = NONE if setup == "all" else sym("user_epoch")
        known = setup == "known"
        truth = r.i.cfg.truth

        def t2(t):
            if t is sym("embeddings"):
                return True
            if t.op == "cmp" and t.args[0] in ("in", "not in") and t.args[1] is sym("user_epoch"):
                return known == (t.args[0] == "in")
            return truth(t)
        r.i.cfg.truth = t2
        nn = r.i.cfg.nonnull
        r.i.cfg.nonnull = lambda t: True if t is sym("user_epoch") else nn(t)
        return r, "main", r.call("attribute", key="main", test_dataloader=TEST, epoch=ep, train_data_indices=NONE)
    yield Case("DVEmb.attribute:uncached", ("RuntimeError",), b, [("before cache", dict(setup="uncached"))],
               [("all epochs", dict(setup="all"))])
    yield Case("DVEmb.attribute:epoch", ("ValueError",), b, [("unknown epoch", dict(setup="unknown"))],
               [("known epoch", dict(setup="known"))])

    def b(repo, fact):
        r = dv(repo, fact)
        g = sym("user_gradients")
        nn = r.i.cfg.nonnull
        r.i.cfg.nonnull = lambda t: True if t is g else nn(t)
        truth = r.i.cfg.truth
        r.i.cfg.truth = lambda t: True if t is g or (t.op == "call" and t.args[0].op == "ext" and
                                                      t.args[0].args[0] == "builtins.any") else truth(t)
        return r, "main", r.call("cache", key="main", gradients=g, learning_rates=sym("user_lr"),
                                 memory_saving=const(True))
    yield Case("DVEmb.cache:external-gradients", ("ValueError",), b,
               [("factorized", dict(fact="kronecker")), ("elementwise", dict(fact="elementwise"))],
               [("full gradients", dict(fact="none"))])

    def b(repo):
        r = dv(repo)
        return r, "main", r.call("cache", key="main", gradients=NONE, learning_rates=NONE, memory_saving=const(True))
    yield Case("DVEmb.cache:nothing-cached", ("ValueError",), b, [("no gradients", {})])

    # ---- Hessian routines
    for f in ("hvp", "hvp_at_x"):
        def b(repo, mode, f=f):
            r = functions(repo, opaque=())
            return r, "main", r.fcall("dattri.func.hessian." + f, key="main", mode=const(mode))
        yield Case(f"hessian.{f}:mode", ("IHVPUsageError",), b,
                   [("unknown", dict(mode="fwd-fwd")), ("empty", dict(mode=""))],
                   [("rev-rev", dict(mode="rev-rev")), ("rev-fwd", dict(mode="rev-fwd"))])
    for mod, exc in (("hessian", "IHVPUsageError"), ("fisher", "IFVPUsageError")):
        def b(repo, dims, mod=mod):
            r = functions(repo, truth=Truth(facts_of({}, ((lambda t: t.op == "dim" and t.args[1] == 0 and t.args[0].op ==
                                                           "sym" and t.args[0].args[0].startswith("param:*"), 2),))))
            return r, "main", r.fcall(f"dattri.func.{mod}._check_input_size", key="main", in_dims=dims)
        t2 = mk("tuple", const(0), const(0))
        yield Case(f"{mod}._check_input_size", (exc,), b,
                   [("one in_dim for two inputs", dict(dims=mk("tuple", const(0)))),
                    ("three in_dims for two inputs", dict(dims=mk("tuple", const(0), const(0), const(0))))],
                   [("matching", dict(dims=t2)), ("default in_dims", dict(dims=NONE))])
        yield SizeCase(f"{mod}._check_input_size:batch", (exc,), b, [("sizes compared", dict(dims=t2))])

    # ---- random projection
    def b(repo, dev, typ):
        P = sym("user_params")
        D = attr(P, "device")
        r = functions(repo, opaque=("dattri.func.projection.make_random_projector",),
                      subst={attr(D, "type"): const(dev), attr(P, "proj_type"): const(typ)},
                      types={}, kinds=lambda t: "Tensor" if t is sym("feature") else ("device" if t is D else None),
                      nonnull=lambda t: True, truth=Truth(facts_of({})))
        return r, "main", r.fcall("dattri.func.projection.random_project", key="main", proj_params=P)
    yield Case("random_project:proj_type", ("ValueError",), b,
               [(f"{t} on {d}", dict(dev=d, typ=t)) for d, t in
                (("cpu", "sjlt"), ("cpu", "grass"), ("cpu", "nope"), ("cuda", "nope"), ("mps", "normal"))],
               [(f"{t} on {d}", dict(dev=d, typ=t)) for d, t in
                (("cpu", "normal"), ("cpu", "rademacher"), ("cpu", "random_mask"), ("cpu", "identity"), ("cuda", "sjlt"),
                 ("cuda", "grass"), ("cuda", "normal"))])

    # ---- retraining and benchmarks
    def b(repo, total, n):
        f = {sym("total_num_subsets"): total, sym("num_subsets"): n}
        r = functions(repo, truth=Truth(facts_of(f)), nonnull=lambda t: True if t in f else None)
        return r, "main", r.fcall("dattri.model_util.retrain.retrain_lds", key="main", dataloader=TRAIN)
    yield Case("retrain_lds:total_num_subsets", ("ValueError",), b,
               [("negative", dict(total=-1, n=1)), ("negative multiple", dict(total=-4, n=2)), ("not divisible", dict(total=10, n=3))],
               [("default", dict(total=0, n=3)), ("multiple", dict(total=9, n=3)), ("same", dict(total=3, n=3))])

    def b(repo, parts):
        r = functions(repo, truth=Truth(facts_of({}, ((lambda t: t.op == "dim", parts),))))
        return r, "main", r.fcall("dattri.script.dattri_retrain.partition_type", key="main")
    yield Case("partition_type", ("ValueError",), b, [("2 fields", dict(parts=2)), ("4 fields", dict(parts=4))],
               [("3 fields", dict(parts=3))])

    def b(repo, known):
        def t(x):
            if x.op == "cmp" and x.args[0] in ("in", "not in") and known is not None:
                return known == (x.args[0] == "in")
            return None
        r = functions(repo, truth=t)
        return r, "main", r.fcall("dattri.benchmark.load.load_benchmark", key="main")
    yield Case("load_benchmark:combination", ("ValueError",), b, [("unknown", dict(known=False))])

    # ---- dropout layers
    def b(repo, bad):
        def t(x):
            if x.op in ("obj",) or (x.op in ("phi", "lv")):
                return None
            return None
        L = sym("layer_positions")
        f = facts_of({mk("dim", L, 0): 1})
        tr = Truth(f)

        def truth(x):
            if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "startswith":
                return not bad
            if x.op == "isinstance":
                return not bad
            if x.op == "cmp" and x.args[0] == "in" and any(y is L for y in sub(x)):
                return True
            return tr(x)
        r = functions(repo, truth=truth, nonnull=lambda x: True if x is L else None)
        tr.i = r.i
        return r, "main", r.fcall("dattri.model_util.dropout.activate_dropout", key="main", layer_positions=L)
    yield DropCase("activate_dropout:layer_positions", ("ValueError",), b, [("not a dropout layer", dict(bad=True))],
                   [("dropout layer", dict(bad=False))], pre=False)


class DropCase(Case):
    """The refusal depends on the contents of a list built in a loop: only require that the error exists and that a
    valid request is accepted."""

    def check(self, c):
        c.scenarios.append(self.name)
        for tag, kw in self.invalid:
            r, key, res = self.build(c.repo, **kw)
            c.functions |= r.i.inlined
            rs = [e for e in r.events(key, "raise") if exc_name(e.exc, r.i) in self.exc]
            cons = f"{self.name}[{tag}]"
            if not rs:
                c.bad(R_REF, cons, f"{'/'.join(self.exc)} is never raised", next((e.loc for e in r.events(key)), ""))
            else:
                c.ok(R_REF, cons, "raised when a requested layer is not a dropout layer")


class DictTruth:
    """Truth hook in which dictionaries nothing was ever stored into are empty."""

    def __init__(self, tr, empty):
        object.__setattr__(self, "tr", tr)
        object.__setattr__(self, "empty", empty)

    @property
    def facts(self):
        return self.tr.facts

    def __setattr__(self, k, v):
        if k == "i":
            self.tr.i = v

    def __call__(self, t):
        if t.op == "obj" and self.tr.i is not None and self.empty(t):
            return False
        if t.op in ("and", "or"):
            vs = [self.tr.i.truth(x) for x in t.args]
            if t.op == "and" and any(v is False for v in vs):
                return False
            if t.op == "or" and any(v is True for v in vs):
                return True
        return self.tr(t)


class SizeCase(Case):
    def __init__(self, *a):
        Case.__init__(self, *a)

    def check(self, c):
        for tag, kw in self.invalid:
            r, key, res = self.build(c.repo, **kw)
            rs = [e for e in r.events(key, "raise") if exc_name(e.exc, r.i) in self.exc and e.loops]
            cons = f"{self.name}[{tag}]"
            if rs:
                c.ok(R_REF, cons, "raised inside the loop over the inputs")
            else:
                c.bad(R_REF, cons, "no error is raised while looking at the batch sizes of the inputs",
                      next((e.loc for e in r.events(key)), ""))


class Skip(Exception):
    pass


def sub(t, depth=0):
    from ..terms import children
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        todo.extend(children(x))
    return out


def hasattr_truth(name, val):
    def t(x):
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "builtins.hasattr" and \
                len(x.args[1]) == 2 and x.args[1][1] is const(name):
            return val
        return None
    return t


def proj_truth(P, tr):
    class Tr:
        facts = tr.facts

        def __setattr__(self, k, v):
            object.__setattr__(self, k, v)
            if k == "i":
                tr.i = v

        def __call__(self, x):
            if x is P:
                return True
            return tr(x)
    return Tr()


def argnames(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def accepts(repo, qual, m):
    f = repo.cls(qual).find(repo, m)
    return f is not None and "relatif_method" in argnames(f)


# ------------------------------------------------------------------ documented errors
def documented(c):
    raises, calls, docs, locs = {}, {}, {}, {}
    skip = ("dattri.benchmark.models", "dattri.benchmark.datasets")
    by_name = {}
    for mod in c.repo.modules.values():
        if mod.name.startswith(skip):
            continue
        for f in iter_funcs(mod):
            q, node = f
            by_name.setdefault(node.name, []).append(q)
            rs, cs = set(), set()
            for x in ast.walk(node):
                if isinstance(x, ast.Raise) and x.exc is not None:
                    e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
                    rs.add(e.attr if isinstance(e, ast.Attribute) else getattr(e, "id", "?"))
                    if isinstance(e, ast.Name) and e.id not in dir(__builtins__):
                        pass
                elif isinstance(x, ast.Raise):
                    rs.add("*")
                elif isinstance(x, ast.Call):
                    n = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", None)
                    if n:
                        cs.add(n)
            raises[q], calls[q] = rs, cs
            locs[q] = f"{mod.rel if hasattr(mod, 'rel') else mod.name}:{node.lineno}"
            d = ast.get_docstring(node) or ""
            m = re.search(r"Raises:\n(.*?)(?:\n\s*\n|\n\S|\Z)", d, re.S)
            if m:
                docs[q] = set(re.findall(r"^\s*(\w*(?:Error|Exception))\s*:", m.group(1), re.M))
    closure = {}

    def reach(q, seen):
        if q in seen:
            return set()
        seen.add(q)
        out = set(raises[q])
        for n in calls[q]:
            for q2 in by_name.get(n, ()):
                out |= reach(q2, seen)
        return out
    for q, names in sorted(docs.items()):
        got = reach(q, set())
        for n in sorted(names):
            if n == "Exception":
                continue
            cons = f"{q}:{n}"
            if n in got:
                c.ok(R_DOC, cons)
            elif "?" in got or any(g[:1].islower() for g in got):
                c.unknown(R_DOC, cons, "raises a computed exception")
            else:
                c.bad(R_DOC, cons, f"documents {n} but neither it nor a function it calls raises it", locs[q])


def iter_funcs(mod):
    def rec(body, pre):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield pre + n.name, n
                yield from rec(n.body, pre + n.name + ".")
            elif isinstance(n, ast.ClassDef):
                yield from rec(n.body, pre + n.name + ".")
    yield from rec(mod.tree.body, mod.name + ".")
