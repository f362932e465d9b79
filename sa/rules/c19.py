"""C19: evaluation runs in evaluation mode, on the requested checkpoint, and does not train.

The mode of every model (as created, evaluation, training) and whether a checkpoint has been loaded into it are followed through
the evaluation and training functions as a typestate; each forward pass is an obligation.
"""
from __future__ import annotations

import ast
import re

from .. import scen
from ..drive import functions
from ..terms import alts, const, is_const, show, sym
from .c14 import LOAD, base_model, entry, known, modules_used, table_names
from .c15 import subterms

R_MODE = "evaluated-in-evaluation-mode"
R_LOAD = "requested-checkpoint-loaded-first"
R_TRAIN = "evaluation-does-not-train"
R_STEP = "training-steps-in-training-mode"
R_TASK = "loaded-checkpoints-are-left-in-evaluation-mode"

EVALUATIONS = re.compile(r"^(loss|eval|evaluate|estimate|test)_")
TRAININGS = re.compile(r"^train_")
SCOPE = "dattri.benchmark."
MAKERS = re.compile(r"(^|\.)(torchvision\.models\.|transformers\.)|\.(from_pretrained|from_config)$")
UPDATES = {".backward": "computes gradients", ".step": "takes an optimizer step"}
LOADER = sym("loader")
PATH = sym("model_path")
MODEL = sym("model")


class Modes:
    """Typestate of the models: 'made' / 'eval' / 'train', and 'empty' until a checkpoint is loaded."""

    def __init__(self, repo):
        self.repo, self.models, self.from_hub = repo, set(), set()

    def module(self, i, t):
        if t.op != "obj" or i.objs[t.args[0]]["kind"] != "inst" or i.objs[t.args[0]].get("cls") is None:
            return False
        return is_module(self.repo, i.objs[t.args[0]]["cls"])

    def __call__(self, i, e):
        if e.kind == "new" and e.d.get("obj") is not None and self.module(i, e.d["obj"]):
            m = e.d["obj"]
            self.models.add(m)
            return ((m, "made"), (m, "empty")), ((m, "eval"), (m, "train"))
        if e.kind == "setattr" and e.d.get("attr") == "training":
            return self.switch(e.d["base"], [False, True] if not is_const(e.d["value"]) else [bool(e.d["value"].args[0])])
        if e.kind != "call":
            return (), ()
        recv = e.d.get("recv")
        last = str(e.callee).rsplit(".", 1)[-1]
        if recv is not None and str(e.callee).startswith(".") or recv is not None and last in ("eval", "train", "load_state_dict"):
            if last == "eval" and not e.args:
                return self.switch(recv, [False])
            if last == "train":
                a = e.args[0] if e.args else dict(e.d["kwargs"]).get("mode")
                return self.switch(recv, [True] if a is None else [bool(a.args[0])] if is_const(a) else [True, False])
            if last == "load_state_dict":
                out, done = [], []
                for m in alts(base_model(recv)):
                    self.models.add(m)
                    done.append((m, "empty"))
                    out.append((m, ("loaded", tuple(e.args) + tuple(v for _, v in e.d["kwargs"]))))
                return out, done
        res = e.d.get("result")
        if res is not None and res.op == "call" and made(e):
            self.models.add(res)
            if last == "from_pretrained":
                self.from_hub.add(res)
            return ((res, "made"), (res, "empty")), ()
        return (), ()

    def switch(self, recv, ways):
        acq, rel = [], []
        ms = alts(base_model(recv))
        for m in ms:
            if m.op == "attr":
                continue            # a part of a model, or an object that is not one
            self.models.add(m)
            for w in (True, False):
                (acq if w in ways else rel).append((m, "train" if w else "eval"))
            rel.append((m, "made"))
        if len(ms) > 1:
            rel = []                # one of them is switched, the others keep their mode
        return acq, rel


def is_module(repo, ci, seen=()):
    for b in ci.node.bases:
        n = ast.unparse(b).rsplit(".", 1)[-1]
        if n in ("Module", "Sequential", "PreTrainedModel", "GPT2LMHeadModel"):
            return True
        x = repo.resolve_expr(ci.module, b)
        if x and x[0] == "class" and x[1] is not ci and x[1] not in seen and is_module(repo, x[1], seen + (ci,)):
            return True
    return False


def made(e):
    f = e.d.get("func")
    name = e.callee if isinstance(e.callee, str) else ""
    if f is not None and f.op == "ext":
        name = f.args[0]
    elif f is not None and f.op == "attr":
        r = e.d.get("recv")
        name = (r.args[0] if r is not None and r.op == "ext" else "") + "." + f.args[1]
    return bool(MAKERS.search(name)) and not name.rsplit(".", 1)[-1].endswith(("Config", "Tokenizer")) and "Config" not in name and "Tokenizer" not in name


def forwards(ms, evs):
    """(event, model) of every forward pass."""
    for e in evs:
        if e.kind != "call":
            continue
        last = str(e.callee).rsplit(".", 1)[-1]
        if e.callee == "<value>":
            t = e.d["func"]
        elif last in ("forward", "generate", "__call__") and e.d.get("recv") is not None:
            t = e.d["recv"]
        elif last == "functional_call" and e.args:
            t = e.args[0]
        else:
            continue
        for m in alts(base_model(t)):
            if m in ms.models:
                yield e, m


def modes(e, m):
    return {k for x, k in e.held if x is m and k in ("made", "eval", "train")}


def entries(c):
    """Functions of the benchmark that evaluate, and those that train."""
    ev, tr, calls = {}, {}, {}
    for f in c.repo.all_functions():
        if f.cls is None and f.qual.startswith(SCOPE) and f.qual == f"{f.module.name}.{f.name}" and ".nanoGPT." not in f.qual:
            if EVALUATIONS.match(f.name):
                ev[f.qual] = f
            elif TRAININGS.match(f.name):
                tr[f.qual] = f
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                x = c.repo.resolve_expr(f.module, n.func)
                if x and x[0] == "func":
                    calls.setdefault(x[1].qual, set()).add(f.qual)

    def only_from(q, known):
        return bool(calls.get(q)) and calls[q] <= known
    return [f for q, f in ev.items() if not only_from(q, set(ev) - {q})], [f for q, f in tr.items() if not only_from(q, set(tr) - {q})]


def params(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def run(c):
    c.rule(R_MODE, "every forward pass of an evaluation happens with the model switched to evaluation mode on every path")
    c.rule(R_LOAD, "the checkpoint of the path argument is loaded into the model before its first forward pass")
    c.rule(R_TRAIN, "evaluation functions compute no gradients and take no optimizer steps, and leave the modes of training alone")
    c.rule(R_STEP, "a forward pass that is trained on does not happen in evaluation mode")
    c.rule(R_TASK, "the default checkpoint loading, the benchmark loader and the metrics hand out models in evaluation mode")
    ev, tr = entries(c)
    for f in sorted(ev, key=lambda x: x.qual):
        with c.guard(f.qual):
            evaluation(c, f)
    for f in sorted(tr, key=lambda x: x.qual):
        with c.guard(f.qual):
            training(c, f)
    with c.guard("task"):
        task(c)
    with c.guard("metrics"):
        metrics(c)
    with c.guard("loader"):
        loader(c)
    with c.guard("dvemb"):
        dvemb(c)
    c.need(R_MODE, 4)
    c.need(R_STEP, 4)


def start(c, f, **kw):
    ms = Modes(c.repo)
    r = functions(c.repo, resource=ms, track_exc=False)
    bound = {}
    for p in params(f):
        if p.endswith("dataloader") or p.endswith("loader"):
            bound[p] = LOADER
        elif p in ("model_path", "checkpoint_path", "ckpt_path", "path", "model_weights"):
            bound[p] = PATH
        elif p in ("model", "net"):
            bound[p] = MODEL
            ms.models.add(MODEL)
    if MODEL in ms.models:
        r.i.S.held = r.i.S.held | {(MODEL, "made")}
    r.fcall(f.qual, "f", **bound)
    c.functions |= r.i.inlined
    c.scenarios.append(f.qual)
    return ms, r, bound


def evaluation(c, f):
    ms, r, bound = start(c, f)
    evs = r.events("f")
    where = f"{f.module.rel}:{f.node.lineno}"
    fw = list(forwards(ms, evs))
    if not fw:
        c.unknown(R_MODE, f.name, "no forward pass found")
        return
    good = {R_MODE: True, R_LOAD: True}
    for e, m in fw:
        got = modes(e, m)
        what = f"{f.name}:{show(m, 2)[:60]}"
        if "made" in got or not got:
            good[R_MODE] = False
            c.bad(R_MODE, f.name, f"{f.name} runs the model without switching it to evaluation mode first", e.loc)
        elif "train" in got:
            good[R_MODE] = False
            c.bad(R_MODE, f.name, f"{f.name} runs the model in training mode", e.loc)
        else:
            c.ok(R_MODE, f.name, what)
        if PATH in bound.values():
            if (m, "empty") in e.held:
                c.bad(R_LOAD, f.name, f"{f.name} runs a model into which no checkpoint has been loaded", e.loc)
            else:
                src = [k[1] for x, k in e.held if x is m and isinstance(k, tuple)]
                if src and not all(any(PATH in subterms(a) for a in s) for s in src):
                    c.bad(R_LOAD, f.name, f"{f.name} loads into the model something else than the checkpoint it is given", e.loc)
                elif src:
                    c.ok(R_LOAD, f.name)
                else:
                    c.unknown(R_LOAD, f.name, "where the parameters come from is not known")
    ups = [e for e in evs if e.kind == "call" and e.callee in UPDATES]
    for e in ups:
        if e.callee == ".step" and "optim" not in show(e.d["recv"], 4).lower() and not e.d["recv"].op == "sym":
            continue
        c.bad(R_TRAIN, f.name, f"{f.name} {UPDATES[e.callee]}", e.loc)
    if not ups:
        c.ok(R_TRAIN, f.name)
    res = r.results["f"]
    if res is None:
        c.bad(R_MODE, f.name, f"{f.name} never returns", where)


def training(c, f):
    ms, r, _ = start(c, f)
    evs = r.events("f")
    fw = list(forwards(ms, evs))
    losses = [e for e in evs if e.kind == "call" and (e.callee == ".backward" or str(e.callee).endswith(".grad")) and e.d.get("recv") is not None]
    if not losses:
        c.unknown(R_STEP, f.name, "no backward pass found")
        return
    found = False
    for e, m in fw:
        res = e.d.get("result")
        trained = [b for b in losses if res is not None and res in closure(r, b.d["recv"])]
        got = modes(e, m)
        if trained:
            found = True
            if "eval" in got or "made" in got and m in ms.from_hub:
                c.bad(R_STEP, f"{f.name}:{e.fn.rsplit('.', 1)[-1]}", f"{f.name} can train the model while it is in evaluation mode", e.loc)
            else:
                c.ok(R_STEP, f"{f.name}:{e.fn.rsplit('.', 1)[-1]}", "/".join(sorted(got)))
    if not found:
        c.unknown(R_STEP, f.name, "no forward pass leads to the loss")


def closure(r, t):
    """Subterms of a value, loop variables followed."""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y in seen:
                continue
            seen.add(y)
            if y.op in ("lv", "obj"):
                todo += [z for z in r.i.expand(y, follow_lv=True) if z not in seen]
    return seen


# ---------------------------------------------------------------- the task, the loader, metrics, DVEmb

def task(c):
    f = c.repo.func("dattri.task._default_checkpoint_load_func") if has(c, "dattri.task._default_checkpoint_load_func") else None
    f = f or default_loader(c)
    if f is None:
        c.unknown(R_TASK, "task", "the default loading function is not found")
        return
    ms = Modes(c.repo)
    ms.models.add(MODEL)
    r = functions(c.repo, resource=ms)
    r.i.S.held = r.i.S.held | {(MODEL, "made"), (MODEL, "empty")}
    ps = params(f)
    ck = sym("checkpoint")
    r.fcall(f.qual, "f", **dict(zip(ps, (MODEL, ck))))
    c.functions |= r.i.inlined
    c.scenarios.append(f.qual)
    rets = [e for e in r.events("f", "return") if e.fn == f.qual]
    where = f"{f.module.rel}:{f.node.lineno}"
    if not rets:
        c.bad(R_TASK, f.name, f"{f.name} returns no model", where)
    for e in rets:
        v = e.d.get("value")
        for m in alts(base_model(v)) if v is not None else ():
            if m not in ms.models:
                c.bad(R_TASK, f.name, f"{f.name} returns {show(m, 2)}, not the model it was given", e.loc)
                continue
            got = modes(e, m)
            src = [k[1] for x, k in e.held if x is m and isinstance(k, tuple)]
            if (m, "empty") in e.held or not src:
                c.bad(R_TASK, f.name, f"{f.name} returns a model into which the checkpoint has not been loaded", e.loc)
            elif not all(any(ck in subterms(a) for a in s) for s in src):
                c.bad(R_TASK, f.name, f"{f.name} loads something else than the checkpoint into the model", e.loc)
            elif got != {"eval"}:
                c.bad(R_TASK, f.name, f"{f.name} returns the model without switching it to evaluation mode", e.loc)
            else:
                c.ok(R_TASK, f.name)


def has(c, q):
    return any(f.qual == q for f in c.repo.all_functions())


def default_loader(c):
    """The function that is used when no loading function is given."""
    for f in c.repo.all_functions():
        if f.module.name == "dattri.task" and f.cls is None and any(isinstance(n, ast.Attribute) and n.attr == "load_state_dict" for n in ast.walk(f.node)):
            return f
    return None


def metrics(c):
    """Functions of the metrics that evaluate the models they retrain."""
    for f in c.repo.all_functions():
        if not f.module.name.startswith("dattri.metric") or f.cls is not None or f.qual != f"{f.module.name}.{f.name}":
            continue
        ps = params(f)
        if not {"train_func", "eval_func"} <= set(ps):
            continue
        ms = Modes(c.repo)
        made_by = sym("train_func")
        base = ms.__call__

        def res(i, e, base=base, ms=ms):
            if e.kind == "call" and e.d.get("func") is made_by and e.d.get("result") is not None:
                ms.models.add(e.d["result"])
                return ((e.d["result"], "made"),), ()
            return base(i, e)
        r = functions(c.repo, resource=res)
        r.fcall(f.qual, "f")
        c.functions |= r.i.inlined
        for e in r.events("f", "call"):
            if e.d.get("func") is sym("eval_func") and e.args:
                for m in alts(base_model(e.args[0])):
                    if m not in ms.models:
                        continue
                    got = modes(e, m)
                    if got == {"eval"}:
                        c.ok(R_TASK, f.name)
                    else:
                        c.bad(R_TASK, f.name, f"{f.name} evaluates a retrained model that is not in evaluation mode", e.loc)


def loader(c):
    """The model of a benchmark setting is in evaluation mode."""
    mods = modules_used(c, LOAD)
    f = c.repo.func(LOAD)
    for name in settings(c, mods):
        ms = Modes(c.repo)
        d, m = name
        q = known(c, mods, nonnull=lambda t: True if t is sym("download_path") else None, resource=ms)
        q.fcall(LOAD, "load", model=const(m), dataset=const(d), metric=const("lds"))
        c.functions |= q.i.inlined
        for e in q.events("load", "return"):
            if e.fn != LOAD or e.d.get("value") is None:
                continue
            for res in alts(e.d["value"]):
                details = res.args[0] if res.op == "tuple" and res.args else res
                v = entry(q, details, "model")
                for x in alts(v) if v is not None else ():
                    b = base_model(x)
                    if is_const(b):
                        continue
                    if b not in ms.models:
                        c.unknown(R_TASK, f"load:{d}_{m}", f"model {show(x, 3)} not followed")
                    elif modes(e, b) == {"eval"}:
                        c.ok(R_TASK, f"load:{d}_{m}")
                    else:
                        c.bad(R_TASK, f"load:{d}_{m}", f"load_benchmark returns the model of {d}_{m} without switching it to evaluation mode", e.loc)


def settings(c, mods):
    """(dataset, model) of every setting of the loader."""
    r = known(c, mods)
    r.fcall(LOAD, "load")
    tables = table_names(r)
    pm, pd = sym("model"), sym("dataset")
    ids, ds = set(), set()
    for e in r.events("load"):
        if e.kind in ("subload", "contains") and e.d["base"] in tables:
            i = e.d["index"] if e.kind == "subload" else e.d["value"]
            have = {p for p in (pm, pd) if p in subterms(i)}
            if have == {pm, pd}:
                ids |= set(r.i.exact_keys(e.d["base"]) or ())
            elif have == {pd}:
                ds |= set(r.i.exact_keys(e.d["base"]) or ())
    return sorted({(d, re.sub(r"^[^A-Za-z0-9]+", "", k[len(d):])) for k in ids for d in ds if str(k).startswith(d) and len(k) > len(d)})


def dvemb(c):
    """DVEmb, which is used while a model is trained, computes the gradients of the test data in evaluation mode;
    no attributor switches a model to training mode."""
    for s in scen.table() + scen.blocks():
        with c.guard(s.name):
            ms = Modes(c.repo)
            r = s.build(c.repo, resource=ms)
            c.functions |= r.i.inlined
            on = [e for k in r.ranges for e in r.events(k, "call") if e.callee == ".train" and ms.switch(e.d["recv"], [True])[0]
                  and not any(is_const(a, False) for a in tuple(e.args) + tuple(v for _, v in e.d["kwargs"]))]
            for e in on:
                c.bad(R_TASK, f"{s.name}:train", f"{s.name} switches the model to training mode", e.loc)
            if not on:
                c.ok(R_TASK, f"{s.name}:train")
            if s.qual != scen.DVEMB or "test" not in s.roles:
                continue
            uses = [e for k in r.ranges for e in r.events(k, "call") if e.d.get("func") is not None and
                    any(y.op == "attr" and "target_func" in str(y.args[1]) for y in subterms(e.d["func"]))]
            if not uses:
                c.unknown(R_TASK, s.name, "no use of the target function found")
            for e in uses:
                got = {k for m in ms.models for k in modes(e, m)}
                if got == {"eval"}:
                    c.ok(R_TASK, s.name, e.loc)
                else:
                    c.bad(R_TASK, s.name, f"{s.name} computes test gradients without switching the model to evaluation mode", e.loc)
